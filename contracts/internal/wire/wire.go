package wire

// Contracts of the element codecs (P01-P05, P07). A Spec_ function states the
// exact bytes or value for every input; the code may compute them any way.

import (
	"unsafe"

	"github.com/cloudwego/prutal/internal/protowire"
	"github.com/cloudwego/prutal/internal/vc"
)

func zz32(x int32) uint64 {
	if x < 0 {
		return uint64(^uint32(x))*2 + 1
	}
	return uint64(x) * 2
}

func zz64(x int64) uint64 {
	if x < 0 {
		return uint64(^x)*2 + 1
	}
	return uint64(x) * 2
}

func unzz64(x uint64) int64 {
	if x&1 == 1 {
		return ^int64(x / 2)
	}
	return int64(x / 2)
}

func unzz32(x uint64) int32 {
	y := uint32(x)
	if y&1 == 1 {
		return ^int32(y / 2)
	}
	return int32(y / 2)
}

func le32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

func le64(b []byte, v uint64) []byte {
	return le32(le32(b, uint32(v)), uint32(v>>32))
}

func lendel(b []byte, s string) []byte {
	b = append(b, vc.Varint(uint64(len(s)))...)
	return append(b, s...)
}

// ---- tags ----

func Spec_EncodeTag(num int32, t Type) uint64 { return uint64(num)<<3 | uint64(t) }

func Spec_DecodeTag(v uint64) (int32, Type) { return int32(uint32(v >> 3)), Type(v & 7) }

func Spec_ConsumeKVTag(b []byte) (int32, Type) {
	if len(b) == 0 || b[0] >= 128 {
		return -1, -1
	}
	return int32(b[0] / 8), Type(b[0] % 8)
}

func Spec_AppendKeyTag(b []byte, t Type) []byte { return append(b, 8|byte(t)) }
func Spec_AppendValTag(b []byte, t Type) []byte { return append(b, 16|byte(t)) }

func Spec_SizeVarint(v uint64) int { return vc.VarintLen(v) }

// ---- single values ----

func Spec_AppendVarint(b []byte, v uint64) []byte      { return append(b, vc.Varint(v)...) }
func Spec_AppendVarintSmall(b []byte, v uint64) []byte { return append(b, vc.Varint(v)...) }

func Spec_UnsafeAppendVarintU64(b []byte, p unsafe.Pointer) []byte {
	return append(b, vc.Varint(*(*uint64)(p))...)
}

func Spec_UnsafeAppendVarintI32(b []byte, p unsafe.Pointer) []byte {
	return append(b, vc.Varint(uint64(int64(*(*int32)(p))))...)
}

func Spec_UnsafeAppendVarintU32(b []byte, p unsafe.Pointer) []byte {
	return append(b, vc.Varint(uint64(*(*uint32)(p)))...)
}

func Spec_UnsafeAppendZigZag64(b []byte, p unsafe.Pointer) []byte {
	return append(b, vc.Varint(zz64(*(*int64)(p)))...)
}

func Spec_UnsafeAppendZigZag32(b []byte, p unsafe.Pointer) []byte {
	return append(b, vc.Varint(zz32(*(*int32)(p)))...)
}

func Spec_UnsafeAppendBool(b []byte, p unsafe.Pointer) []byte {
	return append(b, *(*byte)(p)&1)
}

func Spec_UnsafeAppendString(b []byte, p unsafe.Pointer) []byte { return lendel(b, *(*string)(p)) }

func Spec_UnsafeAppendFixed32(b []byte, p unsafe.Pointer) []byte {
	return le32(b, *(*uint32)(p))
}

func Spec_UnsafeAppendFixed64(b []byte, p unsafe.Pointer) []byte {
	return le64(b, *(*uint64)(p))
}

// ---- length prefix ----

func Spec_LenReserve(b []byte) []byte { return append(b, 0) }

func Requires_LenPack(b []byte, sz int) bool { return sz >= 0 && sz < len(b) }

// the byte in front of the last sz bytes becomes their length as a varint
func Spec_LenPack(b []byte, sz int) []byte {
	tail := append([]byte(nil), b[len(b)-sz:]...)
	b = b[:len(b)-sz-1]
	if sz >= 128 { // the length needs more than the reserved byte
		b = vc.Regrow(b)
	}
	b = append(b, vc.Varint(uint64(sz))...)
	return append(b, tail...)
}

func Requires_lenPackSlow(b []byte, sz int) bool { return sz >= 128 && sz < len(b) }

func Spec_lenPackSlow(b []byte, sz int) []byte {
	tail := append([]byte(nil), b[len(b)-sz:]...)
	b = append(vc.Regrow(b[:len(b)-sz-1]), vc.Varint(uint64(sz))...)
	return append(b, tail...)
}

// ---- repeated, not packed ----

func Spec_UnsafeAppendVarintI32List(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for _, x := range *(*[]int32)(p) {
		b = append(b, vc.Varint(tag)...)
		b = append(b, vc.Varint(uint64(int64(x)))...)
	}
	return b
}

func Spec_UnsafeAppendVarintU64List(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for _, x := range *(*[]uint64)(p) {
		b = append(b, vc.Varint(tag)...)
		b = append(b, vc.Varint(x)...)
	}
	return b
}

func Spec_UnsafeAppendVarintU32List(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for _, x := range *(*[]uint32)(p) {
		b = append(b, vc.Varint(tag)...)
		b = append(b, vc.Varint(uint64(x))...)
	}
	return b
}

func Spec_UnsafeAppendZigZag64List(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for _, x := range *(*[]int64)(p) {
		b = append(b, vc.Varint(tag)...)
		b = append(b, vc.Varint(zz64(x))...)
	}
	return b
}

func Spec_UnsafeAppendZigZag32List(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for _, x := range *(*[]int32)(p) {
		b = append(b, vc.Varint(tag)...)
		b = append(b, vc.Varint(zz32(x))...)
	}
	return b
}

func Spec_UnsafeAppendFixed64List(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for _, x := range *(*[]uint64)(p) {
		b = append(b, vc.Varint(tag)...)
		b = le64(b, x)
	}
	return b
}

func Spec_UnsafeAppendFixed32List(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for _, x := range *(*[]uint32)(p) {
		b = append(b, vc.Varint(tag)...)
		b = le32(b, x)
	}
	return b
}

func Spec_UnsafeAppendBoolList(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for _, x := range *(*[]byte)(p) {
		b = append(b, vc.Varint(tag)...)
		b = append(b, x)
	}
	return b
}

func Spec_UnsafeAppendStringList(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for _, x := range *(*[]string)(p) {
		b = append(b, vc.Varint(tag)...)
		b = lendel(b, x)
	}
	return b
}

func Spec_UnsafeAppendBytesList(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for _, x := range *(*[][]byte)(p) {
		b = append(b, vc.Varint(tag)...)
		b = append(b, vc.Varint(uint64(len(x)))...)
		b = append(b, x...)
	}
	return b
}

// ---- packed ----

func pack(b, e []byte) []byte {
	b = append(b, vc.Varint(uint64(len(e)))...)
	return append(b, e...)
}

func Spec_UnsafeAppendPackedVarintU64(b []byte, p unsafe.Pointer) []byte {
	var e []byte
	for _, x := range *(*[]uint64)(p) {
		e = append(e, vc.Varint(x)...)
	}
	return pack(b, e)
}

func Spec_UnsafeAppendPackedVarintI32(b []byte, p unsafe.Pointer) []byte {
	var e []byte
	for _, x := range *(*[]int32)(p) {
		e = append(e, vc.Varint(uint64(int64(x)))...)
	}
	return pack(b, e)
}

func Spec_UnsafeAppendPackedVarintU32(b []byte, p unsafe.Pointer) []byte {
	var e []byte
	for _, x := range *(*[]uint32)(p) {
		e = append(e, vc.Varint(uint64(x))...)
	}
	return pack(b, e)
}

func Spec_UnsafeAppendPackedZigZag64(b []byte, p unsafe.Pointer) []byte {
	var e []byte
	for _, x := range *(*[]int64)(p) {
		e = append(e, vc.Varint(zz64(x))...)
	}
	return pack(b, e)
}

func Spec_UnsafeAppendPackedZigZag32(b []byte, p unsafe.Pointer) []byte {
	var e []byte
	for _, x := range *(*[]int32)(p) {
		e = append(e, vc.Varint(zz32(x))...)
	}
	return pack(b, e)
}

func Spec_UnsafeAppendPackedFixed64(b []byte, p unsafe.Pointer) []byte {
	s := *(*[]uint64)(p)
	b = append(b, vc.Varint(uint64(len(s)*8))...)
	for _, x := range s {
		b = le64(b, x)
	}
	return b
}

func Spec_UnsafeAppendPackedFixed32(b []byte, p unsafe.Pointer) []byte {
	s := *(*[]uint32)(p)
	b = append(b, vc.Varint(uint64(len(s)*4))...)
	for _, x := range s {
		b = le32(b, x)
	}
	return b
}

func Spec_UnsafeAppendPackedBool(b []byte, p unsafe.Pointer) []byte {
	return pack(b, *(*[]byte)(p))
}

// ---- sizes: the length of what the encoder appends ----

func Spec_UnsafeSizeVarintU64(p unsafe.Pointer) int { return vc.VarintLen(*(*uint64)(p)) }
func Spec_UnsafeSizeVarintI32(p unsafe.Pointer) int {
	return vc.VarintLen(uint64(int64(*(*int32)(p))))
}
func Spec_UnsafeSizeVarintU32(p unsafe.Pointer) int { return vc.VarintLen(uint64(*(*uint32)(p))) }
func Spec_UnsafeSizeZigZag64(p unsafe.Pointer) int  { return vc.VarintLen(zz64(*(*int64)(p))) }
func Spec_UnsafeSizeZigZag32(p unsafe.Pointer) int  { return vc.VarintLen(zz32(*(*int32)(p))) }
func Spec_UnsafeSizeFixed32(p unsafe.Pointer) int   { return 4 }
func Spec_UnsafeSizeFixed64(p unsafe.Pointer) int   { return 8 }
func Spec_UnsafeSizeString(p unsafe.Pointer) int {
	n := len(*(*string)(p))
	return vc.VarintLen(uint64(n)) + n
}
func Spec_UnsafeSizeBool(p unsafe.Pointer) int { return 1 }

// ---- value-level sizers ----

func Spec_szVarintU32(v uint32) int { return vc.VarintLen(uint64(v)) }
func Spec_szVarintU64(v uint64) int { return vc.VarintLen(v) }
func Spec_szVarintI32(v int32) int  { return vc.VarintLen(uint64(int64(v))) }
func Spec_szZigZag32(v int32) int   { return vc.VarintLen(zz32(v)) }
func Spec_szZigZag64(v int64) int   { return vc.VarintLen(zz64(v)) }
func Spec_szFixed32(v uint32) int   { return 4 }
func Spec_szFixed64(v uint64) int   { return 8 }
func Spec_szBool(v bool) int        { return 1 }
func Spec_szString(v string) int {
	return vc.VarintLen(uint64(len(v))) + len(v)
}
func Spec_szByteSlice(v []byte) int {
	return vc.VarintLen(uint64(len(v))) + len(v)
}

// ---- conversions ----

func Spec_decodeZigZag32(v uint64) int32 { return unzz32(v) }

// ---- packed decoders: every element up to the end, appended to the elements
// already there; an element that cannot be read fails the field ----

func Spec_DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
	vv := *(*[]uint64)(h)
	for len(b) > 0 {
		v, n := protowire.ConsumeVarint(b)
		if n < 0 {
			return vc.Err()
		}
		vv = append(vv, v)
		b = b[n:]
	}
	*(*[]uint64)(h) = vv
	return nil
}

func Spec_DecodePackedVarintU32(b []byte, h unsafe.Pointer) error {
	vv := *(*[]uint32)(h)
	for len(b) > 0 {
		v, n := protowire.ConsumeVarint(b)
		if n < 0 {
			return vc.Err()
		}
		vv = append(vv, uint32(v))
		b = b[n:]
	}
	*(*[]uint32)(h) = vv
	return nil
}

func Spec_DecodePackedZigZag64(b []byte, h unsafe.Pointer) error {
	vv := *(*[]int64)(h)
	for len(b) > 0 {
		v, n := protowire.ConsumeVarint(b)
		if n < 0 {
			return vc.Err()
		}
		vv = append(vv, unzz64(v))
		b = b[n:]
	}
	*(*[]int64)(h) = vv
	return nil
}

func Spec_DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
	vv := *(*[]int32)(h)
	for len(b) > 0 {
		v, n := protowire.ConsumeVarint(b)
		if n < 0 {
			return vc.Err()
		}
		vv = append(vv, unzz32(v))
		b = b[n:]
	}
	*(*[]int32)(h) = vv
	return nil
}

func Spec_DecodePackedBool(b []byte, h unsafe.Pointer) error {
	vv := *(*[]bool)(h)
	for len(b) > 0 {
		v, n := protowire.ConsumeVarint(b)
		if n < 0 {
			return vc.Err()
		}
		vv = append(vv, v != 0)
		b = b[n:]
	}
	*(*[]bool)(h) = vv
	return nil
}

func Spec_DecodePackedFixed64(b []byte, h unsafe.Pointer) error {
	if len(b)%8 != 0 {
		return vc.Err()
	}
	vv := *(*[]uint64)(h)
	for len(b) > 0 {
		v, n := protowire.ConsumeFixed64(b)
		vv = append(vv, v)
		b = b[n:]
	}
	*(*[]uint64)(h) = vv
	return nil
}

func Spec_DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
	if len(b)%4 != 0 {
		return vc.Err()
	}
	vv := *(*[]uint32)(h)
	for len(b) > 0 {
		v, n := protowire.ConsumeFixed32(b)
		vv = append(vv, v)
		b = b[n:]
	}
	*(*[]uint32)(h) = vv
	return nil
}
