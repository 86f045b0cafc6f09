package desc

// What the function fields of a descriptor do, and what holds for every
// finalized descriptor.

import (
	"reflect"
	"unsafe"

	"github.com/cloudwego/prutal/internal/vc"
)

// Ghost_EncElem is the encoding (without tag) of the value of field f's
// element type at p; Ghost_EncMap the encoding of a map field without struct
// values.
func Ghost_EncElem(f *FieldDesc, p unsafe.Pointer) []byte { return nil }
func Ghost_EncMap(f *FieldDesc, p unsafe.Pointer) []byte  { return nil }

// Ghost_Packed is the payload of the packed list at p (EncPacked), Ghost_List
// the encoding of the list of scalars at p (EncList).
func Ghost_Packed(f *FieldDesc, p unsafe.Pointer) []byte { return nil }
func Ghost_List(f *FieldDesc, p unsafe.Pointer) []byte   { return nil }

// Ghost_EncVal is the encoding of a scalar map value.
func Ghost_EncVal(f *FieldDesc, p unsafe.Pointer) []byte { return nil }

// EncKey8, EncKey4: a map key of 8 or 4 bytes (signed: of type int32)

func Ghost_Key8(t TagType, x uint64) []byte              { return nil }
func Ghost_Key4(t TagType, x uint32, signed bool) []byte { return nil }

func EncKey8(t TagType, x uint64) []byte {
	switch t {
	case TypeFixed64:
		return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), byte(x >> 32), byte(x >> 40), byte(x >> 48), byte(x >> 56)}
	case TypeZigZag64:
		return vc.Varint(x<<1 ^ uint64(int64(x)>>63))
	}
	return vc.Varint(x)
}

func EncKey4(t TagType, x uint32, signed bool) []byte {
	switch t {
	case TypeFixed32:
		return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
	case TypeZigZag32:
		return vc.Varint(uint64(x<<1 ^ uint32(int32(x)>>31)))
	}
	if signed {
		return vc.Varint(uint64(int64(int32(x))))
	}
	return vc.Varint(uint64(x))
}

func KeyIs8(f *FieldDesc) bool {
	return f.T.K.Kind == reflect.Int64 || f.T.K.Kind == reflect.Uint64
}

func KeyIs4(f *FieldDesc) bool {
	return f.T.K.Kind == reflect.Int32 || f.T.K.Kind == reflect.Uint32
}

// EncKey is the encoding of the map key at p
func EncKey(f *FieldDesc, p unsafe.Pointer) []byte {
	switch {
	case KeyIs8(f):
		return Ghost_Key8(f.KeyType, *(*uint64)(p))
	case KeyIs4(f):
		return Ghost_Key4(f.KeyType, *(*uint32)(p), f.T.K.Kind == reflect.Int32)
	case f.T.K.Kind == reflect.Bool:
		return []byte{*(*byte)(p) & 1}
	}
	s := *(*string)(p)
	return append(vc.Varint(uint64(len(s))), s...)
}

func EncPacked(f *FieldDesc, t *Type, p unsafe.Pointer) []byte {
	var e []byte
	n := *(*int)(unsafe.Add(p, 8))
	q := *(*unsafe.Pointer)(p)
	for i := 0; i < n; i++ {
		if i != 0 {
			q = unsafe.Add(q, t.V.Size)
		}
		e = append(e, Ghost_EncElem(f, q)...)
	}
	return e
}

func Dyn_FieldDesc_AppendFunc(f *FieldDesc, b []byte, p unsafe.Pointer) []byte {
	if f.Packed {
		e := Ghost_Packed(f, p)
		b = append(b, vc.Varint(uint64(len(e)))...)
		return append(b, e...)
	}
	return append(b, Ghost_EncElem(f, p)...)
}

func Dyn_FieldDesc_SizeFunc(f *FieldDesc, p unsafe.Pointer) int {
	return len(Ghost_EncElem(f, p))
}

func EncList(b []byte, f *FieldDesc, t *Type, p unsafe.Pointer) []byte {
	n := *(*int)(unsafe.Add(p, 8))
	q := *(*unsafe.Pointer)(p)
	for i := 0; i < n; i++ {
		if i != 0 {
			q = unsafe.Add(q, t.V.Size)
		}
		b = append(b, vc.Varint(f.WireTag)...)
		b = append(b, Ghost_EncElem(f, q)...)
	}
	return b
}

func Requires_Dyn_FieldDesc_AppendRepeated(f *FieldDesc, b []byte, tag uint64, p unsafe.Pointer) bool {
	return tag == f.WireTag
}

func Dyn_FieldDesc_AppendRepeated(f *FieldDesc, b []byte, tag uint64, p unsafe.Pointer) []byte {
	if f.IsMap {
		return append(b, Ghost_EncMap(f, p)...)
	}
	return append(b, Ghost_List(f, p)...)
}

func Dyn_FieldDesc_SizeMapFunc(f *FieldDesc, p unsafe.Pointer, wireTagSize int) int {
	return len(Ghost_EncMap(f, p))
}

func Dyn_FieldDesc_KeyAppendFunc(f *FieldDesc, b []byte, p unsafe.Pointer) []byte {
	return append(b, EncKey(f, p)...)
}

func Dyn_FieldDesc_KeySizeFunc(f *FieldDesc, p unsafe.Pointer) int { return len(EncKey(f, p)) }

func Dyn_FieldDesc_ValAppendFunc(f *FieldDesc, b []byte, p unsafe.Pointer) []byte {
	return append(b, Ghost_EncVal(f, p)...)
}

func Dyn_FieldDesc_ValSizeFunc(f *FieldDesc, p unsafe.Pointer) int {
	return len(Ghost_EncVal(f, p))
}

// Inv_Type holds for every parsed type.
func Inv_Type(t *Type) bool {
	if t.IsPointer != (t.Kind == reflect.Pointer) || t.IsSlice != (t.Kind == reflect.Slice) {
		return false
	}
	if t.IsPointer && (t.V == nil || t.Size != 8) {
		return false
	}
	return t.Kind != reflect.Struct || t.S != nil
}

// MsgElem: a message, or a pointer to one
func MsgElem(t *Type) bool {
	if t.IsPointer {
		return t.V.Kind == reflect.Struct && t.V.S != nil
	}
	return t.Kind == reflect.Struct && t.S != nil
}

// Inv_FieldDesc holds for every field of a finalized descriptor.
func Inv_FieldDesc(f *FieldDesc) bool {
	if f.WireTagSize != vc.VarintLen(f.WireTag) {
		return false
	}
	if f.IsMap {
		if f.IsList || f.Packed || !f.Repeated || f.OneofType != nil {
			return false
		}
		if f.T.Kind != reflect.Map || f.T.K == nil || f.T.V == nil || !keyKind(f.T.K.Kind) {
			return false
		}
		if f.KeyAppendFunc == nil || f.KeySizeFunc == nil {
			return false
		}
		if f.ValAppendFunc == nil {
			return f.ValSizeFunc == nil && MsgElem(f.T.V) && f.AppendRepeated == nil && f.SizeMapFunc == nil
		}
		return f.ValSizeFunc != nil && !f.T.V.IsPointer && f.T.V.Kind != reflect.Struct
	}
	if f.IsList {
		if !f.Repeated || f.T.Kind != reflect.Slice || !f.T.SliceLike || f.T.Size == 8 || f.T.Size == 4 || f.T.Size == 1 || f.T.V == nil || f.OneofType != nil {
			return false
		}
		if f.Packed {
			return f.AppendFunc != nil && f.SizeFunc != nil
		}
		if f.SizeFunc == nil {
			return f.AppendRepeated == nil && MsgElem(f.T.V)
		}
		return f.AppendRepeated != nil
	}
	if f.Repeated || f.Packed {
		return false
	}
	if f.AppendFunc == nil {
		return f.SizeFunc == nil && MsgElem(f.T)
	}
	return f.SizeFunc != nil
}

func keyKind(k reflect.Kind) bool {
	switch k {
	case reflect.Int32, reflect.Int64, reflect.Uint32, reflect.Uint64, reflect.Bool, reflect.String:
		return true
	}
	return false
}

// ---- lookup ----

// Ghost_Field is the field of number v
func Ghost_Field(s *StructDesc, v int32) *FieldDesc { return nil }

func Model_StructDesc_GetField(p *StructDesc, v int32) *FieldDesc {
	f := Ghost_Field(p, v)
	vc.Assume(Fact_found(f, v))
	return f
}

func Fact_found(f *FieldDesc, v int32) bool { return f == nil || f.ID == v && Decodable(f) }

// carries: a record of encoding tag may be decoded into a value of type t
func carries(tag TagType, t *Type) bool {
	if t.IsPointer {
		t = t.V
		if t.IsPointer {
			return false
		}
	}
	return t.Kind != reflect.Map && t.Kind != reflect.Slice && represents(tag, t.Kind)
}

// Decodable: the shape of a field of a finalized descriptor, as the decoder relies on it
func Decodable(f *FieldDesc) bool {
	t := f.T
	if f.IsMap {
		return !f.IsList && t.Kind == reflect.Map && t.K != nil && t.V != nil && f.TagType == TypeBytes && f.OneofType == nil &&
			!t.K.IsPointer && representsKey(f.KeyType, t.K.Kind) && carries(f.ValType, t.V)
	}
	if f.IsList {
		return f.Repeated && t.Kind == reflect.Slice && t.V != nil && f.OneofType == nil && carries(f.TagType, t.V)
	}
	return !f.Repeated && t.Kind != reflect.Slice && carries(f.TagType, t)
}

// ---- decoding ----

func GhostMem_DecodeFunc(f *FieldDesc, b []byte, p unsafe.Pointer) error { return nil }

func Dyn_FieldDesc_DecodeFunc(f *FieldDesc, b []byte, p unsafe.Pointer) error {
	return GhostMem_DecodeFunc(f, b, p)
}

// Ghost_TmpType is the map type whose temporary variables v are
func Ghost_TmpType(v *TmpMapVars) *Type { return nil }

// TmpOf: v holds temporary variables for the map type t
func TmpOf(v *TmpMapVars, t *Type) bool { return v != nil && Ghost_TmpType(v) == t && v.Update != nil }

func Pool_Type_MapTmpVarsPool(t *Type, v *TmpMapVars) bool { return TmpOf(v, t) }

// Reset zeroes the value v is about to receive, Update stores the pair in v into the map at p
func Model_TmpMapVars_Reset(v *TmpMapVars) { GhostMem_TmpReset(v) }
func GhostMem_TmpReset(v *TmpMapVars)      {}

func Dyn_TmpMapVars_Update(v, v1 *TmpMapVars, p unsafe.Pointer) { GhostMem_TmpUpdate(v, p) }
func GhostMem_TmpUpdate(v *TmpMapVars, p unsafe.Pointer)        {}
