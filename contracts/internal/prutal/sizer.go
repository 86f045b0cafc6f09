package prutal

// Contracts of the sizer (P02): what it returns is the length of what the
// contracts of the encoder append.

import (
	"reflect"
	"unsafe"

	"github.com/cloudwego/prutal/internal/desc"
	"github.com/cloudwego/prutal/internal/hack"
	"github.com/cloudwego/prutal/internal/vc"
)

func lenDelSize(n int) int { return vc.VarintLen(uint64(n)) + n }

func Spec_SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, error) {
	if Ghost_Deep(base, s, maxdepth) {
		return 0, vc.Err()
	}
	return len(Ghost_Msg(base, s, maxdepth)), nil
}

// sizeField: the length of what encField appends
func sizeField(f *desc.FieldDesc, base unsafe.Pointer, d int) (int, bool) {
	p := unsafe.Add(base, f.Offset)
	if f.OneofType != nil {
		q := hack.IfaceData(p)
		if q == nil || hack.ReflectTypePtr(f.OneofType) != hack.IfaceTypePtr(p) {
			return 0, false
		}
		p = q
	}
	if unset(f, p) && (f.OneofType == nil || f.T.IsPointer) {
		return 0, false
	}
	t := f.T
	if t.IsPointer {
		t = t.V
		p = *(*unsafe.Pointer)(p)
	}
	switch {
	case f.IsMap && f.ValAppendFunc != nil:
		return len(desc.Ghost_EncMap(f, p)), false
	case f.IsMap:
		return len(Ghost_MsgMap(f, p, d)), Ghost_MapDeep(f, p, d)
	case f.Packed:
		return vc.VarintLen(f.WireTag) + lenDelSize(len(desc.Ghost_Packed(f, p))), false
	case f.IsList && f.AppendRepeated != nil:
		return len(desc.Ghost_List(f, p)), false
	case f.IsList:
		return len(Ghost_MsgList(f, p, d)), Ghost_ListDeep(f, p, d)
	case f.AppendFunc != nil:
		return vc.VarintLen(f.WireTag) + len(desc.Ghost_EncElem(f, p)), false
	}
	if Ghost_Deep(p, t.S, d-1) {
		return 0, true
	}
	return vc.VarintLen(f.WireTag) + lenDelSize(len(Ghost_Msg(p, t.S, d-1))), false
}

func Def_SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, error) {
	if maxdepth == 0 {
		return 0, vc.Err()
	}
	if base == nil {
		base = s.Empty
	}
	n := 0
	for _, f := range s.Fields {
		z, deep := sizeField(f, base, maxdepth)
		if deep {
			return 0, vc.Err()
		}
		n += z
	}
	if s.HasUnknownFields {
		n += len(unknown(s, base))
	}
	return n, nil
}

// Lemma_sizeField: sizeField is the length of what encField appends
func Lemma_sizeField(f *desc.FieldDesc, base unsafe.Pointer, d int) {
	m, deep := encField(nil, f, base, d)
	n, deep2 := sizeField(f, base, d)
	vc.Assert(deep == deep2)
	vc.Assert(deep || n == len(m))
}

func Requires_sizeListField(f *desc.FieldDesc, p unsafe.Pointer, t *desc.Type, maxdepth int) bool {
	return f.IsList && t == f.T && *(*int)(unsafe.Add(p, 8)) != 0
}

func Spec_sizeListField(f *desc.FieldDesc, p unsafe.Pointer, t *desc.Type, maxdepth int) (int, error) {
	if f.Packed {
		return vc.VarintLen(f.WireTag) + lenDelSize(len(desc.Ghost_Packed(f, p))), nil
	}
	if f.AppendRepeated != nil {
		return len(desc.Ghost_List(f, p)), nil
	}
	if Ghost_ListDeep(f, p, maxdepth) {
		return 0, vc.Err()
	}
	return len(Ghost_MsgList(f, p, maxdepth)), nil
}

func Def_sizeListField(f *desc.FieldDesc, p unsafe.Pointer, t *desc.Type, maxdepth int) (int, error) {
	if f.Packed {
		return vc.VarintLen(f.WireTag) + lenDelSize(len(desc.EncPacked(f, t, p))), nil
	}
	if f.AppendRepeated != nil {
		return len(desc.EncList(nil, f, t, p)), nil
	}
	m, deep := encMsgList(nil, f, t, p, maxdepth)
	if deep {
		return 0, vc.Err()
	}
	return len(m), nil
}

func Requires_sizeMapField(f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) bool {
	return f.IsMap
}

func Spec_sizeMapField(f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) (int, error) {
	if f.ValAppendFunc != nil {
		return len(desc.Ghost_EncMap(f, p)), nil
	}
	if Ghost_MapDeep(f, p, maxdepth) {
		return 0, vc.Err()
	}
	return len(Ghost_MsgMap(f, p, maxdepth)), nil
}

func Def_sizeMapField(f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) (int, error) {
	if f.SizeMapFunc != nil {
		return len(desc.Ghost_EncMap(f, p)), nil
	}
	m, deep := encMap(nil, f, p, maxdepth)
	if deep {
		return 0, vc.Err()
	}
	return len(m), nil
}

func Requires_sizeMapField_u64(f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) bool {
	return f.IsMap && f.T.V.IsPointer && f.ValAppendFunc == nil && desc.KeyIs8(f)
}

func Spec_sizeMapField_u64(f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) (int, error) {
	m, deep := encMap8(nil, f, p, maxdepth)
	if deep {
		return 0, vc.Err()
	}
	return len(m), nil
}

func Requires_sizeMapField_u32(f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) bool {
	return f.IsMap && f.T.V.IsPointer && f.ValAppendFunc == nil && desc.KeyIs4(f)
}

func Spec_sizeMapField_u32(f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) (int, error) {
	m, deep := encMap4(nil, f, p, maxdepth)
	if deep {
		return 0, vc.Err()
	}
	return len(m), nil
}

func Requires_sizeMapField_str(f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) bool {
	return f.IsMap && f.T.V.IsPointer && f.ValAppendFunc == nil && f.T.K.Kind == reflect.String
}

func Spec_sizeMapField_str(f *desc.FieldDesc, p unsafe.Pointer, maxdepth int) (int, error) {
	m, deep := encMapStr(nil, f, p, maxdepth)
	if deep {
		return 0, vc.Err()
	}
	return len(m), nil
}

func Spec_sizeKeyU64(t desc.TagType, k uint64) int { return len(desc.Ghost_Key8(t, k)) }
func Def_sizeKeyU64(t desc.TagType, k uint64) int  { return len(desc.EncKey8(t, k)) }

func Spec_sizeKeyU32(t desc.TagType, k uint32, signed bool) int {
	return len(desc.Ghost_Key4(t, k, signed))
}
func Def_sizeKeyU32(t desc.TagType, k uint32, signed bool) int {
	return len(desc.EncKey4(t, k, signed))
}

func Spec_sizeUnknownFields(s *desc.StructDesc, base unsafe.Pointer) int {
	return len(unknown(s, base))
}
