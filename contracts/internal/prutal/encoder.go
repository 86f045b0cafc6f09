package prutal

// Contracts of the encoder and the sizer (P01, P02, P03, P08).
//
// Ghost_Msg(base, s, d) is the encoding of the message at base, Ghost_Deep says
// that it nests deeper than d levels. Def_Encoder_AppendStruct unfolds them one level.

import (
	"reflect"
	"unsafe"

	"github.com/cloudwego/prutal/internal/desc"
	"github.com/cloudwego/prutal/internal/hack"
	"github.com/cloudwego/prutal/internal/vc"
)

func Ghost_Msg(base unsafe.Pointer, s *desc.StructDesc, d int) []byte { return nil }
func Ghost_Deep(base unsafe.Pointer, s *desc.StructDesc, d int) bool  { return false }

// Ghost_MsgList, Ghost_MsgMap: the encoding of the list or map field of messages at p
func Ghost_MsgList(f *desc.FieldDesc, p unsafe.Pointer, d int) []byte { return nil }
func Ghost_ListDeep(f *desc.FieldDesc, p unsafe.Pointer, d int) bool  { return false }
func Ghost_MsgMap(f *desc.FieldDesc, p unsafe.Pointer, d int) []byte  { return nil }
func Ghost_MapDeep(f *desc.FieldDesc, p unsafe.Pointer, d int) bool   { return false }

func Scratch_Encoder_p() {}

func lenDel(b []byte, e []byte) []byte {
	b = append(b, vc.Varint(uint64(len(e)))...)
	return append(b, e...)
}

func Spec_Encoder_AppendStruct(e *Encoder, b []byte, base unsafe.Pointer, s *desc.StructDesc, encodeLen bool, maxdepth int) ([]byte, error) {
	if Ghost_Deep(base, s, maxdepth) {
		return b, vc.Err()
	}
	m := Ghost_Msg(base, s, maxdepth)
	if encodeLen {
		return lenDel(b, m), nil
	}
	return append(b, m...), nil
}

// one level of a list of messages
func encMsgList(m []byte, f *desc.FieldDesc, t *desc.Type, p unsafe.Pointer, d int) ([]byte, bool) {
	n := *(*int)(unsafe.Add(p, 8))
	q := *(*unsafe.Pointer)(p)
	vt := t.V
	for i := 0; i < n; i++ {
		if i != 0 {
			q = unsafe.Add(q, vt.Size)
		}
		base := q
		s := vt.S
		if vt.IsPointer {
			base = *(*unsafe.Pointer)(q)
			s = vt.V.S
		}
		if Ghost_Deep(base, s, d-1) {
			return m, true
		}
		m = append(m, vc.Varint(f.WireTag)...)
		m = lenDel(m, Ghost_Msg(base, s, d-1))
	}
	return m, false
}

func Spec_Encoder_AppendListField(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) ([]byte, error) {
	if Ghost_ListDeep(f, p, maxdepth) {
		return b, vc.Err()
	}
	return append(b, Ghost_MsgList(f, p, maxdepth)...), nil
}

func Def_Encoder_AppendListField(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) ([]byte, error) {
	m, deep := encMsgList(b, f, f.T, p, maxdepth)
	if deep {
		return m, vc.Err()
	}
	return m, nil
}

func Requires_Encoder_AppendListField(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) bool {
	return f.IsList && desc.MsgElem(f.T.V)
}

// a map entry: key in field 1, value in field 2
func entry(b []byte, f *desc.FieldDesc, key, val []byte) []byte {
	b = append(b, vc.Varint(f.WireTag)...)
	b = append(b, vc.Varint(uint64(2+len(key)+len(val)))...)
	b = append(b, 8|byte(f.KeyWireType))
	b = append(b, key...)
	b = append(b, 16|byte(f.ValWireType))
	return append(b, val...)
}

func encMap8(b []byte, f *desc.FieldDesc, p unsafe.Pointer, d int) ([]byte, bool) {
	for k, v := range *(*map[uint64]unsafe.Pointer)(p) {
		if Ghost_Deep(v, f.T.V.V.S, d-1) {
			return b, true
		}
		b = entry(b, f, desc.Ghost_Key8(f.KeyType, k), lenDel(nil, Ghost_Msg(v, f.T.V.V.S, d-1)))
	}
	return b, false
}

func encMap4(b []byte, f *desc.FieldDesc, p unsafe.Pointer, d int) ([]byte, bool) {
	for k, v := range *(*map[uint32]unsafe.Pointer)(p) {
		if Ghost_Deep(v, f.T.V.V.S, d-1) {
			return b, true
		}
		b = entry(b, f, desc.Ghost_Key4(f.KeyType, k, f.T.K.Kind == reflect.Int32), lenDel(nil, Ghost_Msg(v, f.T.V.V.S, d-1)))
	}
	return b, false
}

func encMapStr(b []byte, f *desc.FieldDesc, p unsafe.Pointer, d int) ([]byte, bool) {
	for k, v := range *(*map[string]unsafe.Pointer)(p) {
		if Ghost_Deep(v, f.T.V.V.S, d-1) {
			return b, true
		}
		b = entry(b, f, append(vc.Varint(uint64(len(k))), k...), lenDel(nil, Ghost_Msg(v, f.T.V.V.S, d-1)))
	}
	return b, false
}

func Spec_Encoder_appendMapField_u64_unsafe(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) ([]byte, error) {
	b, deep := encMap8(b, f, p, maxdepth)
	if deep {
		return b, vc.Err()
	}
	return b, nil
}

func Requires_Encoder_appendMapField_u64_unsafe(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) bool {
	return f.IsMap && f.T.V.IsPointer && f.ValAppendFunc == nil && desc.KeyIs8(f)
}

func Spec_Encoder_appendMapField_u32_unsafe(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) ([]byte, error) {
	b, deep := encMap4(b, f, p, maxdepth)
	if deep {
		return b, vc.Err()
	}
	return b, nil
}

func Requires_Encoder_appendMapField_u32_unsafe(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) bool {
	return f.IsMap && f.T.V.IsPointer && f.ValAppendFunc == nil && desc.KeyIs4(f)
}

func Spec_Encoder_appendMapField_str_unsafe(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) ([]byte, error) {
	b, deep := encMapStr(b, f, p, maxdepth)
	if deep {
		return b, vc.Err()
	}
	return b, nil
}

func Requires_Encoder_appendMapField_str_unsafe(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) bool {
	return f.IsMap && f.T.V.IsPointer && f.ValAppendFunc == nil && f.T.K.Kind == reflect.String
}

func Spec_appendUnknownFields(b []byte, s *desc.StructDesc, base unsafe.Pointer) []byte {
	return append(b, unknown(s, base)...)
}

func unknown(s *desc.StructDesc, base unsafe.Pointer) []byte {
	q := unsafe.Add(base, s.UnknownFieldsOffset)
	if s.UnknownFieldsPointer {
		q = *(*unsafe.Pointer)(q)
		if q == nil {
			return nil
		}
	}
	return *(*[]byte)(q)
}

// any other map with entries that may hold messages, in iteration order
func encMapAny(b []byte, f *desc.FieldDesc, p unsafe.Pointer, d int) ([]byte, bool) {
	tmp := f.T.MapTmpVarsPool.Get().(*desc.TmpMapVars)
	it := hack.NewMapIter(tmp.MapWithPtr(p))
	for {
		k, v := it.Next()
		if k == nil {
			return b, false
		}
		var val []byte
		if f.ValAppendFunc != nil {
			val = desc.Ghost_EncVal(f, v)
		} else {
			s := f.T.V.S
			if f.T.V.IsPointer {
				s = f.T.V.V.S
				v = *(*unsafe.Pointer)(v)
			}
			if Ghost_Deep(v, s, d-1) {
				return b, true
			}
			val = lenDel(nil, Ghost_Msg(v, s, d-1))
		}
		b = entry(b, f, desc.EncKey(f, k), val)
	}
}

func encMap(b []byte, f *desc.FieldDesc, p unsafe.Pointer, d int) ([]byte, bool) {
	if f.ValAppendFunc == nil && f.T.V.IsPointer {
		switch f.T.K.Kind {
		case reflect.Int64, reflect.Uint64:
			return encMap8(b, f, p, d)
		case reflect.Int32, reflect.Uint32:
			return encMap4(b, f, p, d)
		case reflect.String:
			return encMapStr(b, f, p, d)
		}
	}
	return encMapAny(b, f, p, d)
}

func Requires_Encoder_AppendMapField(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) bool {
	return f.IsMap
}

func Spec_Encoder_AppendMapField(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) ([]byte, error) {
	if f.ValAppendFunc != nil {
		return append(b, desc.Ghost_EncMap(f, p)...), nil
	}
	if Ghost_MapDeep(f, p, maxdepth) {
		return b, vc.Err()
	}
	return append(b, Ghost_MsgMap(f, p, maxdepth)...), nil
}

func Def_Encoder_AppendMapField(e *Encoder, b []byte, f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) ([]byte, error) {
	m, deep := encMap(b, f, p, maxdepth)
	if deep {
		return m, vc.Err()
	}
	return m, nil
}

// unset: no presence, or the zero value
func unset(f *desc.FieldDesc, p unsafe.Pointer) bool {
	t := f.T
	switch {
	case t.Size == 8:
		return *(*uint64)(p) == 0
	case t.Size == 4:
		return *(*uint32)(p) == 0
	case t.Size == 1:
		return *(*byte)(p) == 0
	case t.SliceLike:
		return *(*int)(unsafe.Add(p, 8)) == 0
	}
	return false
}

// encField is what field f of the message at base contributes
func encField(b []byte, f *desc.FieldDesc, base unsafe.Pointer, d int) ([]byte, bool) {
	p := unsafe.Add(base, f.Offset)
	if f.OneofType != nil {
		q := hack.IfaceData(p)
		if q == nil || hack.ReflectTypePtr(f.OneofType) != hack.IfaceTypePtr(p) {
			return b, false // another member, or none, is selected
		}
		p = q
	}
	if unset(f, p) && (f.OneofType == nil || f.T.IsPointer) {
		return b, false
	}
	t := f.T
	if t.IsPointer {
		t = t.V
		p = *(*unsafe.Pointer)(p)
	}
	switch {
	case f.IsMap && f.ValAppendFunc != nil:
		return append(b, desc.Ghost_EncMap(f, p)...), false
	case f.IsMap:
		return append(b, Ghost_MsgMap(f, p, d)...), Ghost_MapDeep(f, p, d)
	case f.Packed:
		b = append(b, vc.Varint(f.WireTag)...)
		return lenDel(b, desc.Ghost_Packed(f, p)), false
	case f.IsList && f.AppendRepeated != nil:
		return append(b, desc.Ghost_List(f, p)...), false
	case f.IsList:
		return append(b, Ghost_MsgList(f, p, d)...), Ghost_ListDeep(f, p, d)
	case f.AppendFunc != nil:
		b = append(b, vc.Varint(f.WireTag)...)
		return append(b, desc.Ghost_EncElem(f, p)...), false
	}
	if Ghost_Deep(p, t.S, d-1) {
		return b, true
	}
	b = append(b, vc.Varint(f.WireTag)...)
	return lenDel(b, Ghost_Msg(p, t.S, d-1)), false
}

// encMsg unfolds Ghost_Msg and Ghost_Deep one level
func encMsg(base unsafe.Pointer, s *desc.StructDesc, d int) ([]byte, bool) {
	var m []byte
	if d == 0 {
		return nil, true
	}
	if base == nil {
		base = s.Empty
	}
	for _, f := range s.Fields {
		var deep bool
		m, deep = encField(m, f, base, d)
		if deep {
			return m, true
		}
	}
	if s.HasUnknownFields {
		m = append(m, unknown(s, base)...)
	}
	return m, false
}

func Def_Encoder_AppendStruct(e *Encoder, b []byte, base unsafe.Pointer, s *desc.StructDesc, encodeLen bool, maxdepth int) ([]byte, error) {
	m, deep := encMsg(base, s, maxdepth)
	if deep {
		return b, vc.Err()
	}
	if encodeLen {
		return lenDel(b, m), nil
	}
	return append(b, m...), nil
}

var _ = reflect.Struct
var _ = hack.IfaceData
