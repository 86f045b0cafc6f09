package prutal

// Contracts of the decoder (P04-P09).
//
// GhostMem_X are changes of the memory of messages: DecodeStruct, seen by its
// callers, turns the memory it finds into the one GhostMem_Decode stands for.
// Def_Decoder_DecodeStruct unfolds it: one record at a time.

import (
	"reflect"
	"unsafe"

	"github.com/cloudwego/prutal/internal/desc"
	"github.com/cloudwego/prutal/internal/hack"
	"github.com/cloudwego/prutal/internal/protowire"
	"github.com/cloudwego/prutal/internal/vc"
	"github.com/cloudwego/prutal/internal/wire"
)

func GhostMem_Decode(b []byte, base unsafe.Pointer, s *desc.StructDesc, maxdepth int) error {
	return nil
}

func GhostMem_DecodePair(b []byte, p unsafe.Pointer, f *desc.FieldDesc, maxdepth int) error {
	return nil
}

// the field cached by the decoder is the one of its number
func Cand_cachedField(s *desc.StructDesc, f *desc.FieldDesc) bool {
	return f == nil || desc.Ghost_Field(s, f.ID) == f && desc.Decodable(f)
}

// the temporary variables cached by the decoder are those of the field
func Cand_cachedTmp(f *desc.FieldDesc, tmv *desc.TmpMapVars) bool {
	return tmv == nil || f != nil && desc.TmpOf(tmv, f.T)
}

// the encoder's view of a field is of no use here
func NoInv_FieldDesc_Decoder_DecodeStruct() {}

// ---- memory ----

func Model_Decoder_Malloc(d *Decoder, n, align int, abiType uintptr) unsafe.Pointer {
	return vc.FreshOf(n, align, abiType)
}

// newValue allocates what the pointer at p of type t refers to
func newValue(d *Decoder, p unsafe.Pointer, t *desc.Type) unsafe.Pointer {
	q := d.Malloc(int(t.V.Size), t.V.Align, t.V.MallocAbiType)
	*(*unsafe.Pointer)(p) = q
	return q
}

// GhostMem_Realloc gives the slice h of elements of type t the capacity c
func GhostMem_Realloc(h *hack.SliceHeader, t *desc.Type, c int) {}

func Model_Decoder_ReallocSlice(d *Decoder, h *hack.SliceHeader, t *desc.Type, c int) {
	GhostMem_Realloc(h, t, c)
}

// newElem makes room for one more element of type t in the list at p
func newElem(d *Decoder, p unsafe.Pointer, t *desc.Type) unsafe.Pointer {
	h := (*hack.SliceHeader)(p)
	if h.Cap == 0 {
		d.ReallocSlice(h, t, 8)
	} else if h.Len == h.Cap {
		d.ReallocSlice(h, t, 2*h.Cap)
	}
	h.Len = h.Len + 1
	return unsafe.Add(h.Data, uintptr(h.Len-1)*t.Size)
}

// ---- unknown fields ----

// GhostMem_ClearUnknown empties the unknown fields of the message at base, GhostMem_KeepUnknown adds a record
func GhostMem_ClearUnknown(s *desc.StructDesc, base unsafe.Pointer)            {}
func GhostMem_KeepUnknown(s *desc.StructDesc, base unsafe.Pointer, rec []byte) {}

func Spec_resetUnknownFields(s *desc.StructDesc, base unsafe.Pointer) { GhostMem_ClearUnknown(s, base) }
func Spec_appendToUnknownFields(s *desc.StructDesc, base unsafe.Pointer, b []byte) {
	GhostMem_KeepUnknown(s, base, b)
}

func Def_resetUnknownFields(s *desc.StructDesc, base unsafe.Pointer) {
	p := unsafe.Add(base, s.UnknownFieldsOffset)
	if s.UnknownFieldsPointer {
		p = *(*unsafe.Pointer)(p)
	}
	if p != nil {
		*(*int)(unsafe.Add(p, 8)) = 0
	}
}

func Def_appendToUnknownFields(s *desc.StructDesc, base unsafe.Pointer, b []byte) {
	p := unsafe.Add(base, s.UnknownFieldsOffset)
	if s.UnknownFieldsPointer {
		if *(*unsafe.Pointer)(p) == nil {
			*(*unsafe.Pointer)(p) = unsafe.Pointer(&[]byte{})
		}
		p = *(*unsafe.Pointer)(p)
	}
	x := (*[]byte)(p)
	*x = append(*x, b...)
}

// ---- values ----

// number stores the varint u, as tag means it, in the width of kind k
func number(tag desc.TagType, k reflect.Kind, p unsafe.Pointer, u uint64) {
	switch tag {
	case desc.TypeZigZag32:
		u = uint64(protowire.DecodeZigZag(u & 0xffffffff))
	case desc.TypeZigZag64:
		u = uint64(protowire.DecodeZigZag(u))
	}
	switch k {
	case reflect.Int32, reflect.Uint32:
		*(*uint32)(p) = uint32(u)
	case reflect.Int64, reflect.Uint64:
		*(*uint64)(p) = u
	case reflect.Bool:
		*(*bool)(p) = u != 0
	}
}

// text stores a copy of x as a string
func text(d *Decoder, p unsafe.Pointer, x []byte) {
	if len(x) == 0 {
		*(*string)(p) = ""
		return
	}
	q := d.Malloc(len(x), 1, 0)
	copy(unsafe.Slice((*byte)(q), len(x)), x)
	h := (*hack.StringHeader)(p)
	h.Data = q
	h.Len = len(x)
}

// blob stores a copy of x as bytes
func blob(d *Decoder, p unsafe.Pointer, x []byte) {
	if len(x) == 0 {
		*(*[]byte)(p) = []byte{}
		return
	}
	q := d.Malloc(len(x), 1, 0)
	*(*[]byte)(p) = unsafe.Slice((*byte)(q), len(x))
	copy(*(*[]byte)(p), x)
}

// value decodes the record content at the front of b, of wire type typ, into
// the value at p of type t; the length of the content, -1 if it is malformed
func value(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc, t *desc.Type, tag desc.TagType, typ wire.Type, maxdepth int, key bool) int {
	switch typ {
	case wire.TypeVarint:
		if tag != desc.TypeVarint && tag != desc.TypeZigZag32 && tag != desc.TypeZigZag64 {
			return -1
		}
		u, n := protowire.ConsumeVarint(b)
		if n < 0 {
			return -1
		}
		number(tag, t.Kind, p, u)
		return n
	case wire.TypeFixed32:
		if tag != desc.TypeFixed32 {
			return -1
		}
		u, n := protowire.ConsumeFixed32(b)
		if n < 0 {
			return -1
		}
		*(*uint32)(p) = u
		return n
	case wire.TypeFixed64:
		if tag != desc.TypeFixed64 {
			return -1
		}
		u, n := protowire.ConsumeFixed64(b)
		if n < 0 {
			return -1
		}
		*(*uint64)(p) = u
		return n
	case wire.TypeBytes:
		x, n := protowire.ConsumeBytes(b)
		if n < 0 {
			return -1
		}
		switch {
		case t.Kind == reflect.String:
			text(d, p, x)
		case t.Kind == desc.KindBytes && !key:
			blob(d, p, x)
		case t.Kind == reflect.Struct && !key:
			if GhostMem_Decode(x, p, t.S, maxdepth-1) != nil {
				return -1
			}
		default:
			return -1
		}
		return n
	}
	return -1
}

// record decodes one record of field f
func record(d *Decoder, b []byte, base unsafe.Pointer, f *desc.FieldDesc, typ wire.Type, maxdepth int) int {
	p := unsafe.Add(base, f.Offset)
	t := f.T
	if f.OneofType != nil {
		data := d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
		*(*uintptr)(p) = f.IfaceTab
		*(*unsafe.Pointer)(unsafe.Add(p, 8)) = data
		p = data
	}
	if f.IsMap {
		x, n := protowire.ConsumeBytes(b)
		if typ != wire.TypeBytes || n < 0 {
			return -1
		}
		e, err := Ghost_MapEntry(x, f), Ghost_BadEntry(x, f)
		if err {
			return -1
		}
		if f.DecodeFunc != nil {
			if f.DecodeFunc(e, p) != nil {
				return -1
			}
		} else if GhostMem_DecodePair(e, p, f, maxdepth) != nil {
			return -1
		}
		return n
	}
	if f.IsList {
		if typ == wire.TypeBytes && f.DecodeFunc != nil {
			x, n := protowire.ConsumeBytes(b)
			if n < 0 || f.DecodeFunc(x, p) != nil {
				return -1
			}
			return n
		}
		t = t.V
		p = newElem(d, p, t)
	}
	if t.IsPointer {
		p = newValue(d, p, t)
		t = t.V
	}
	return value(d, b, p, f, t, f.TagType, typ, maxdepth, false)
}

func Spec_Decoder_DecodeStruct(d *Decoder, b []byte, base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, error) {
	if err := GhostMem_Decode(b, base, s, maxdepth); err != nil {
		return 0, err
	}
	return len(b), nil
}

func Split_Decoder_DecodeStruct(d *Decoder, b []byte, base unsafe.Pointer, s *desc.StructDesc, maxdepth int) bool {
	return s.HasUnknownFields
}

func Def_Decoder_DecodeStruct(d *Decoder, b []byte, base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, error) {
	if maxdepth == 0 {
		return 0, vc.Err()
	}
	if s.HasUnknownFields {
		GhostMem_ClearUnknown(s, base)
	}
	i := 0
	var f *desc.FieldDesc
	for i < len(b) {
		num, typ, n := protowire.ConsumeTag(b[i:])
		if n < 0 {
			return 0, vc.Err()
		}
		if f == nil || f.ID != int32(num) {
			f = s.GetField(int32(num)) // by Cand_cachedField, f is always that
		}
		m := 0
		if f != nil {
			m = record(d, b[i+n:], base, f, wire.Type(typ), maxdepth)
		} else {
			m = protowire.ConsumeFieldValue(num, typ, b[i+n:])
		}
		if m < 0 {
			return 0, vc.Err()
		}
		if f == nil && s.HasUnknownFields {
			GhostMem_KeepUnknown(s, base, b[i:i+n+m])
		}
		i += n + m
	}
	return i, nil
}

// ---- maps ----

// Ghost_MapEntry is the canonical form of the map entry b: one key record and one value record
func Ghost_MapEntry(b []byte, f *desc.FieldDesc) []byte { return nil }
func Ghost_BadEntry(b []byte, f *desc.FieldDesc) bool   { return false }

func Model_normalizeMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
	if Ghost_BadEntry(b, f) {
		return nil, vc.Err()
	}
	e := Ghost_MapEntry(b, f)
	vc.Assume(Ghost_Canonical(e, f))
	return e, nil
}

// Ghost_Canonical is canonical, by the definition below
func Ghost_Canonical(b []byte, f *desc.FieldDesc) bool { return false }

func Requires_Decoder_DecodeMapPair(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc, tmp *desc.TmpMapVars, maxdepth int) bool {
	return desc.TmpOf(tmp, f.T) && f.IsMap && desc.Decodable(f) && Ghost_Canonical(b, f)
}

func Assumes_Decoder_DecodeMapPair(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc, tmp *desc.TmpMapVars, maxdepth int) bool {
	return !Ghost_Canonical(b, f) || canonical(b, f)
}

func Spec_Decoder_DecodeMapPair(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc, tmp *desc.TmpMapVars, maxdepth int) (int, error) {
	if err := GhostMem_DecodePair(b, p, f, maxdepth); err != nil {
		return 0, err
	}
	return len(b), nil
}

// ---- the two halves of a map entry ----

func NoInv_FieldDesc_Decoder_DecodeMapKey()   {}
func NoInv_FieldDesc_Decoder_DecodeMapValue() {}

func Requires_Decoder_DecodeMapKey(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc) bool {
	return len(b) > 0 && f.IsMap && desc.Decodable(f)
}

func Spec_Decoder_DecodeMapKey(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc) (int, error) {
	if err := GhostMem_DecodeKey(b, p, f); err != nil {
		return 0, err
	}
	return recLen(b), nil
}

func GhostMem_DecodeKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) error { return nil }

// recLen is the length of the record of one byte of tag at the front of b
func recLen(b []byte) int {
	n := 0
	switch wire.Type(b[0] & 7) {
	case wire.TypeVarint:
		_, n = protowire.ConsumeVarint(b[1:])
	case wire.TypeFixed32:
		n = 4
	case wire.TypeFixed64:
		n = 8
	case wire.TypeBytes:
		_, n = protowire.ConsumeBytes(b[1:])
	}
	return 1 + n
}

// canonical: b is one record of key number 1 and one of value number 2
func canonical(b []byte, f *desc.FieldDesc) bool {
	n := recLen(b)
	return len(b) >= 2 && b[0]>>3 == 1 && 1 < n && n < len(b) && b[n]>>3 == 2 && n+recLen(b[n:]) == len(b)
}

func Def_Decoder_DecodeMapKey(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc) (int, error) {
	if b[0]>>3 != 1 {
		return 0, vc.Err()
	}
	n := value(d, b[1:], p, f, f.T.K, f.KeyType, wire.Type(b[0]&7), 0, true)
	if n < 0 {
		return 0, vc.Err()
	}
	vc.Assert(1+n == recLen(b))
	return 1 + n, nil
}

func Requires_Decoder_DecodeMapValue(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc, maxdepth int) bool {
	return len(b) > 0 && f.IsMap && desc.Decodable(f)
}

func GhostMem_DecodeVal(b []byte, p unsafe.Pointer, f *desc.FieldDesc, maxdepth int) error {
	return nil
}

func Spec_Decoder_DecodeMapValue(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc, maxdepth int) (int, error) {
	if err := GhostMem_DecodeVal(b, p, f, maxdepth); err != nil {
		return 0, err
	}
	return recLen(b), nil
}

func Def_Decoder_DecodeMapValue(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc, maxdepth int) (int, error) {
	if b[0]>>3 != 2 {
		return 0, vc.Err()
	}
	t := f.T.V
	if t.IsPointer {
		p = newValue(d, p, t)
		t = t.V
	}
	n := value(d, b[1:], p, f, t, f.ValType, wire.Type(b[0]&7), maxdepth, false)
	if n < 0 {
		return 0, vc.Err()
	}
	vc.Assert(1+n == recLen(b))
	return 1 + n, nil
}

// ---- the canonical form of a map entry ----

func Spec_zeroRecord(t wire.Type) []byte {
	switch t {
	case wire.TypeFixed32:
		return []byte{0, 0, 0, 0}
	case wire.TypeFixed64:
		return []byte{0, 0, 0, 0, 0, 0, 0, 0}
	}
	return []byte{0}
}

func Spec_concatBytesRecords(x, y []byte) []byte {
	x, _ = protowire.ConsumeBytes(x)
	y, _ = protowire.ConsumeBytes(y)
	var b []byte
	b = append(b, vc.Varint(uint64(len(x)+len(y)))...)
	b = append(b, x...)
	b = append(b, y...)
	return b
}

func Requires_concatBytesRecords(x, y []byte) bool {
	_, n := protowire.ConsumeBytes(x)
	_, m := protowire.ConsumeBytes(y)
	return n >= 0 && m >= 0
}

// Def_normalizeMapEntry: the last key record and the last value record, or all
// of them merged if the value is a message, in front of whatever is missing
func todo_normalizeMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
	var k, v []byte
	i := 0
	for i < len(b) {
		num, typ, n := protowire.ConsumeTag(b[i:])
		if n < 0 || num == 1 && typ != f.KeyWireType || num == 2 && typ != f.ValWireType {
			return nil, vc.Err()
		}
		i += n
		m := protowire.ConsumeFieldValue(num, typ, b[i:])
		if m < 0 {
			return nil, vc.Err()
		}
		if num == 1 {
			k = b[i : i+m]
		} else if num == 2 {
			if v != nil && f.ValAppendFunc == nil {
				v = concatBytesRecords(v, b[i:i+m])
			} else {
				v = b[i : i+m]
			}
		}
		i += m
	}
	if k == nil {
		k = zeroRecord(f.KeyWireType)
	}
	if v == nil {
		v = zeroRecord(f.ValWireType)
	}
	var e []byte
	e = append(e, byte(1<<3|f.KeyWireType))
	e = append(e, k...)
	e = append(e, byte(2<<3|f.ValWireType))
	e = append(e, v...)
	return e, nil
}

func NoInv_FieldDesc_normalizeMapEntry() {}

func todo_Requires_normalizeMapEntry(b []byte, f *desc.FieldDesc) bool {
	return f.KeyWireType == wire.Type(Ghost_WireType(f.KeyType)) && f.ValWireType == wire.Type(Ghost_WireType(f.ValType)) && (f.ValAppendFunc != nil || f.ValWireType == wire.TypeBytes)
}

func Ghost_WireType(t desc.TagType) int { return 0 }

// Def_Decoder_ReallocSlice: new memory for c elements holding the elements there are
func Def_Decoder_ReallocSlice(d *Decoder, h *hack.SliceHeader, t *desc.Type, c int) {
	if h.Cap >= c {
		return
	}
	q := d.Malloc(c*int(t.Size), t.Align, t.MallocAbiType)
	if n := h.Len * int(t.Size); h.Len > 0 {
		copy(unsafe.Slice((*byte)(q), n), unsafe.Slice((*byte)(h.Data), n))
	}
	h.Data = q
	h.Cap = c
}

// the elements of a slice fit the address space
func Assumes_Decoder_ReallocSlice(d *Decoder, h *hack.SliceHeader, t *desc.Type, c int) bool {
	n := h.Len * int(t.Size)
	return n >= 0 && n < 1<<47
}

// Def_Decoder_DecodeMapPair: the entry of b replaces the entry of its key
func Def_Decoder_DecodeMapPair(d *Decoder, b []byte, p unsafe.Pointer, f *desc.FieldDesc, tmp *desc.TmpMapVars, maxdepth int) (int, error) {
	tmp.Reset()
	if *(*unsafe.Pointer)(p) == nil {
		*(*unsafe.Pointer)(p) = reflect.MakeMap(f.T.T).UnsafePointer()
	}
	n, err := d.DecodeMapKey(b, tmp.KeyPointer(), f)
	if err != nil {
		return 0, err
	}
	m, err := d.DecodeMapValue(b[n:], tmp.ValPointer(), f, maxdepth)
	if err != nil {
		return 0, err
	}
	tmp.Update(tmp, p)
	vc.Assert(n+m == len(b))
	return n + m, nil
}

func NoInv_FieldDesc_Decoder_DecodeMapPair() {}
