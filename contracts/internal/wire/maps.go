package wire

// Code generated by tools/gencontracts.py. DO NOT EDIT.

// Contracts of the typed map codecs (P01-P05, P07).

import (
	"unsafe"

	"github.com/cloudwego/prutal/internal/protowire"
	"github.com/cloudwego/prutal/internal/vc"
)

func bool1(b []byte, x bool) []byte {
	if x {
		return append(b, 1)
	}
	return append(b, 0)
}

func lendelb(b []byte, s []byte) []byte {
	b = append(b, vc.Varint(uint64(len(s)))...)
	return append(b, s...)
}

func entry(b []byte, tag uint64, e []byte) []byte {
	b = append(b, vc.Varint(tag)...)
	b = append(b, vc.Varint(uint64(len(e)))...)
	return append(b, e...)
}

func Spec_appendMapKey_VarintU32(b []byte, x uint32) []byte {
	return append(append(b, 8), vc.Varint(uint64(x))...)
}

func Spec_appendMapKey_VarintU64(b []byte, x uint64) []byte {
	return append(append(b, 8), vc.Varint(x)...)
}

func Spec_appendMapKey_ZigZag32(b []byte, x int32) []byte {
	return append(append(b, 8), vc.Varint(zz32(x))...)
}

func Spec_appendMapKey_ZigZag64(b []byte, x int64) []byte {
	return append(append(b, 8), vc.Varint(zz64(x))...)
}

func Spec_appendMapKey_Fixed32(b []byte, x uint32) []byte {
	return le32(append(b, 13), x)
}

func Spec_appendMapKey_Fixed64(b []byte, x uint64) []byte {
	return le64(append(b, 9), x)
}

func Spec_appendMapKey_Bool(b []byte, x bool) []byte {
	return bool1(append(b, 8), x)
}

func Spec_appendMapKey_String(b []byte, x string) []byte {
	return lendel(append(b, 10), x)
}

func Spec_appendMapValue_VarintU32(b []byte, x uint32) []byte {
	return append(append(b, 16), vc.Varint(uint64(x))...)
}

func Spec_appendMapValue_VarintU64(b []byte, x uint64) []byte {
	return append(append(b, 16), vc.Varint(x)...)
}

func Spec_appendMapValue_ZigZag32(b []byte, x int32) []byte {
	return append(append(b, 16), vc.Varint(zz32(x))...)
}

func Spec_appendMapValue_ZigZag64(b []byte, x int64) []byte {
	return append(append(b, 16), vc.Varint(zz64(x))...)
}

func Spec_appendMapValue_Fixed32(b []byte, x uint32) []byte {
	return le32(append(b, 21), x)
}

func Spec_appendMapValue_Fixed64(b []byte, x uint64) []byte {
	return le64(append(b, 17), x)
}

func Spec_appendMapValue_Bool(b []byte, x bool) []byte {
	return bool1(append(b, 16), x)
}

func Spec_appendMapValue_Bytes(b []byte, x []byte) []byte {
	return lendelb(append(b, 18), x)
}

func Spec_appendMapValue_String(b []byte, x string) []byte {
	return lendel(append(b, 18), x)
}

func Spec_AppendMap_VarintU32_VarintU32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU32(Spec_appendMapKey_VarintU32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU32_VarintU64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU64(Spec_appendMapKey_VarintU32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU32_ZigZag32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]int32)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag32(Spec_appendMapKey_VarintU32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU32_ZigZag64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]int64)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag64(Spec_appendMapKey_VarintU32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU32_Fixed32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed32(Spec_appendMapKey_VarintU32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU32_Fixed64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed64(Spec_appendMapKey_VarintU32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU32_Bool(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]bool)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bool(Spec_appendMapKey_VarintU32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU32_Bytes(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32][]byte)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bytes(Spec_appendMapKey_VarintU32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU32_String(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]string)(p) {
		b = entry(b, tag, Spec_appendMapValue_String(Spec_appendMapKey_VarintU32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU64_VarintU32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU32(Spec_appendMapKey_VarintU64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU64_VarintU64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU64(Spec_appendMapKey_VarintU64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU64_ZigZag32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]int32)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag32(Spec_appendMapKey_VarintU64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU64_ZigZag64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]int64)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag64(Spec_appendMapKey_VarintU64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU64_Fixed32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed32(Spec_appendMapKey_VarintU64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU64_Fixed64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed64(Spec_appendMapKey_VarintU64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU64_Bool(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]bool)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bool(Spec_appendMapKey_VarintU64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU64_Bytes(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64][]byte)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bytes(Spec_appendMapKey_VarintU64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_VarintU64_String(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]string)(p) {
		b = entry(b, tag, Spec_appendMapValue_String(Spec_appendMapKey_VarintU64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag32_VarintU32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int32]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU32(Spec_appendMapKey_ZigZag32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag32_VarintU64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int32]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU64(Spec_appendMapKey_ZigZag32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag32_ZigZag32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int32]int32)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag32(Spec_appendMapKey_ZigZag32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag32_ZigZag64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int32]int64)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag64(Spec_appendMapKey_ZigZag32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag32_Fixed32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int32]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed32(Spec_appendMapKey_ZigZag32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag32_Fixed64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int32]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed64(Spec_appendMapKey_ZigZag32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag32_Bool(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int32]bool)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bool(Spec_appendMapKey_ZigZag32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag32_Bytes(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int32][]byte)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bytes(Spec_appendMapKey_ZigZag32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag32_String(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int32]string)(p) {
		b = entry(b, tag, Spec_appendMapValue_String(Spec_appendMapKey_ZigZag32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag64_VarintU32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int64]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU32(Spec_appendMapKey_ZigZag64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag64_VarintU64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int64]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU64(Spec_appendMapKey_ZigZag64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag64_ZigZag32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int64]int32)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag32(Spec_appendMapKey_ZigZag64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag64_ZigZag64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int64]int64)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag64(Spec_appendMapKey_ZigZag64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag64_Fixed32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int64]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed32(Spec_appendMapKey_ZigZag64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag64_Fixed64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int64]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed64(Spec_appendMapKey_ZigZag64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag64_Bool(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int64]bool)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bool(Spec_appendMapKey_ZigZag64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag64_Bytes(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int64][]byte)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bytes(Spec_appendMapKey_ZigZag64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_ZigZag64_String(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[int64]string)(p) {
		b = entry(b, tag, Spec_appendMapValue_String(Spec_appendMapKey_ZigZag64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed32_VarintU32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU32(Spec_appendMapKey_Fixed32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed32_VarintU64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU64(Spec_appendMapKey_Fixed32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed32_ZigZag32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]int32)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag32(Spec_appendMapKey_Fixed32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed32_ZigZag64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]int64)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag64(Spec_appendMapKey_Fixed32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed32_Fixed32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed32(Spec_appendMapKey_Fixed32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed32_Fixed64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed64(Spec_appendMapKey_Fixed32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed32_Bool(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]bool)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bool(Spec_appendMapKey_Fixed32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed32_Bytes(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32][]byte)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bytes(Spec_appendMapKey_Fixed32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed32_String(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint32]string)(p) {
		b = entry(b, tag, Spec_appendMapValue_String(Spec_appendMapKey_Fixed32(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed64_VarintU32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU32(Spec_appendMapKey_Fixed64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed64_VarintU64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU64(Spec_appendMapKey_Fixed64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed64_ZigZag32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]int32)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag32(Spec_appendMapKey_Fixed64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed64_ZigZag64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]int64)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag64(Spec_appendMapKey_Fixed64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed64_Fixed32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed32(Spec_appendMapKey_Fixed64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed64_Fixed64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed64(Spec_appendMapKey_Fixed64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed64_Bool(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]bool)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bool(Spec_appendMapKey_Fixed64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed64_Bytes(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64][]byte)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bytes(Spec_appendMapKey_Fixed64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Fixed64_String(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[uint64]string)(p) {
		b = entry(b, tag, Spec_appendMapValue_String(Spec_appendMapKey_Fixed64(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Bool_VarintU32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[bool]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU32(Spec_appendMapKey_Bool(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Bool_VarintU64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[bool]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU64(Spec_appendMapKey_Bool(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Bool_ZigZag32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[bool]int32)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag32(Spec_appendMapKey_Bool(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Bool_ZigZag64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[bool]int64)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag64(Spec_appendMapKey_Bool(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Bool_Fixed32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[bool]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed32(Spec_appendMapKey_Bool(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Bool_Fixed64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[bool]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed64(Spec_appendMapKey_Bool(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Bool_Bool(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[bool]bool)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bool(Spec_appendMapKey_Bool(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Bool_Bytes(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[bool][]byte)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bytes(Spec_appendMapKey_Bool(nil, k), v))
	}
	return b
}

func Spec_AppendMap_Bool_String(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[bool]string)(p) {
		b = entry(b, tag, Spec_appendMapValue_String(Spec_appendMapKey_Bool(nil, k), v))
	}
	return b
}

func Spec_AppendMap_String_VarintU32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[string]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU32(Spec_appendMapKey_String(nil, k), v))
	}
	return b
}

func Spec_AppendMap_String_VarintU64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[string]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_VarintU64(Spec_appendMapKey_String(nil, k), v))
	}
	return b
}

func Spec_AppendMap_String_ZigZag32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[string]int32)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag32(Spec_appendMapKey_String(nil, k), v))
	}
	return b
}

func Spec_AppendMap_String_ZigZag64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[string]int64)(p) {
		b = entry(b, tag, Spec_appendMapValue_ZigZag64(Spec_appendMapKey_String(nil, k), v))
	}
	return b
}

func Spec_AppendMap_String_Fixed32(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[string]uint32)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed32(Spec_appendMapKey_String(nil, k), v))
	}
	return b
}

func Spec_AppendMap_String_Fixed64(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[string]uint64)(p) {
		b = entry(b, tag, Spec_appendMapValue_Fixed64(Spec_appendMapKey_String(nil, k), v))
	}
	return b
}

func Spec_AppendMap_String_Bool(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[string]bool)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bool(Spec_appendMapKey_String(nil, k), v))
	}
	return b
}

func Spec_AppendMap_String_Bytes(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[string][]byte)(p) {
		b = entry(b, tag, Spec_appendMapValue_Bytes(Spec_appendMapKey_String(nil, k), v))
	}
	return b
}

func Spec_AppendMap_String_String(b []byte, tag uint64, p unsafe.Pointer) []byte {
	for k, v := range *(*map[string]string)(p) {
		b = entry(b, tag, Spec_appendMapValue_String(Spec_appendMapKey_String(nil, k), v))
	}
	return b
}

// rd* read a one byte tag of field num and a value: the value and how many
// bytes both take, 0 if they are not there
func rdVarint(b []byte, num int32) (uint64, int) {
	if len(b) == 0 || b[0] != byte(num)<<3 {
		return 0, 0
	}
	v, n := protowire.ConsumeVarint(b[1:])
	if n < 0 {
		return 0, 0
	}
	return v, n + 1
}

func rdFixed32(b []byte, num int32) (uint32, int) {
	if len(b) < 5 || b[0] != byte(num)<<3|5 {
		return 0, 0
	}
	return uint32(b[1]) | uint32(b[2])<<8 | uint32(b[3])<<16 | uint32(b[4])<<24, 5
}

func rdFixed64(b []byte, num int32) (uint64, int) {
	if len(b) < 9 || b[0] != byte(num)<<3|1 {
		return 0, 0
	}
	return uint64(b[1]) | uint64(b[2])<<8 | uint64(b[3])<<16 | uint64(b[4])<<24 |
		uint64(b[5])<<32 | uint64(b[6])<<40 | uint64(b[7])<<48 | uint64(b[8])<<56, 9
}

func Requires_decodeMap_Varint(b []byte, num int32) bool  { return num == 1 || num == 2 }
func Requires_decodeMap_Fixed32(b []byte, num int32) bool { return num == 1 || num == 2 }
func Requires_decodeMap_Fixed64(b []byte, num int32) bool { return num == 1 || num == 2 }
func Requires_decodeMap_Bool(b []byte, num int32) bool    { return num == 1 || num == 2 }

func Spec_decodeMap_Varint(b []byte, num int32) (uint64, int, error) {
	v, n := rdVarint(b, num)
	if n == 0 {
		return 0, 0, vc.Err()
	}
	return v, n, nil
}

func Spec_decodeMap_Fixed32(b []byte, num int32) (uint32, int, error) {
	v, n := rdFixed32(b, num)
	if n == 0 {
		return 0, 0, vc.Err()
	}
	return v, n, nil
}

func Spec_decodeMap_Fixed64(b []byte, num int32) (uint64, int, error) {
	v, n := rdFixed64(b, num)
	if n == 0 {
		return 0, 0, vc.Err()
	}
	return v, n, nil
}

func Spec_decodeMap_Bool(b []byte, num int32) (bool, int, error) {
	v, n := rdVarint(b, num)
	if n == 0 {
		return false, 0, vc.Err()
	}
	return v != 0, n, nil
}

func Spec_DecodeMap_VarintU32_VarintU32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]uint32)(mp)
	if *m == nil {
		*m = make(map[uint32]uint32)
	}
	(*m)[uint32(k)] = uint32(v)
	return nil
}

func Spec_DecodeMap_VarintU32_VarintU64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]uint64)(mp)
	if *m == nil {
		*m = make(map[uint32]uint64)
	}
	(*m)[uint32(k)] = v
	return nil
}

func Spec_DecodeMap_VarintU32_ZigZag32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]int32)(mp)
	if *m == nil {
		*m = make(map[uint32]int32)
	}
	(*m)[uint32(k)] = unzz32(v)
	return nil
}

func Spec_DecodeMap_VarintU32_ZigZag64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]int64)(mp)
	if *m == nil {
		*m = make(map[uint32]int64)
	}
	(*m)[uint32(k)] = unzz64(v)
	return nil
}

func Spec_DecodeMap_VarintU32_Fixed32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed32(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]uint32)(mp)
	if *m == nil {
		*m = make(map[uint32]uint32)
	}
	(*m)[uint32(k)] = v
	return nil
}

func Spec_DecodeMap_VarintU32_Fixed64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed64(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]uint64)(mp)
	if *m == nil {
		*m = make(map[uint32]uint64)
	}
	(*m)[uint32(k)] = v
	return nil
}

func Spec_DecodeMap_VarintU32_Bool(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]bool)(mp)
	if *m == nil {
		*m = make(map[uint32]bool)
	}
	(*m)[uint32(k)] = v != 0
	return nil
}

func Spec_DecodeMap_VarintU64_VarintU32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]uint32)(mp)
	if *m == nil {
		*m = make(map[uint64]uint32)
	}
	(*m)[k] = uint32(v)
	return nil
}

func Spec_DecodeMap_VarintU64_VarintU64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]uint64)(mp)
	if *m == nil {
		*m = make(map[uint64]uint64)
	}
	(*m)[k] = v
	return nil
}

func Spec_DecodeMap_VarintU64_ZigZag32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]int32)(mp)
	if *m == nil {
		*m = make(map[uint64]int32)
	}
	(*m)[k] = unzz32(v)
	return nil
}

func Spec_DecodeMap_VarintU64_ZigZag64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]int64)(mp)
	if *m == nil {
		*m = make(map[uint64]int64)
	}
	(*m)[k] = unzz64(v)
	return nil
}

func Spec_DecodeMap_VarintU64_Fixed32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed32(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]uint32)(mp)
	if *m == nil {
		*m = make(map[uint64]uint32)
	}
	(*m)[k] = v
	return nil
}

func Spec_DecodeMap_VarintU64_Fixed64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed64(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]uint64)(mp)
	if *m == nil {
		*m = make(map[uint64]uint64)
	}
	(*m)[k] = v
	return nil
}

func Spec_DecodeMap_VarintU64_Bool(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]bool)(mp)
	if *m == nil {
		*m = make(map[uint64]bool)
	}
	(*m)[k] = v != 0
	return nil
}

func Spec_DecodeMap_ZigZag32_VarintU32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int32]uint32)(mp)
	if *m == nil {
		*m = make(map[int32]uint32)
	}
	(*m)[unzz32(k)] = uint32(v)
	return nil
}

func Spec_DecodeMap_ZigZag32_VarintU64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int32]uint64)(mp)
	if *m == nil {
		*m = make(map[int32]uint64)
	}
	(*m)[unzz32(k)] = v
	return nil
}

func Spec_DecodeMap_ZigZag32_ZigZag32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int32]int32)(mp)
	if *m == nil {
		*m = make(map[int32]int32)
	}
	(*m)[unzz32(k)] = unzz32(v)
	return nil
}

func Spec_DecodeMap_ZigZag32_ZigZag64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int32]int64)(mp)
	if *m == nil {
		*m = make(map[int32]int64)
	}
	(*m)[unzz32(k)] = unzz64(v)
	return nil
}

func Spec_DecodeMap_ZigZag32_Fixed32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed32(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int32]uint32)(mp)
	if *m == nil {
		*m = make(map[int32]uint32)
	}
	(*m)[unzz32(k)] = v
	return nil
}

func Spec_DecodeMap_ZigZag32_Fixed64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed64(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int32]uint64)(mp)
	if *m == nil {
		*m = make(map[int32]uint64)
	}
	(*m)[unzz32(k)] = v
	return nil
}

func Spec_DecodeMap_ZigZag32_Bool(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int32]bool)(mp)
	if *m == nil {
		*m = make(map[int32]bool)
	}
	(*m)[unzz32(k)] = v != 0
	return nil
}

func Spec_DecodeMap_ZigZag64_VarintU32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int64]uint32)(mp)
	if *m == nil {
		*m = make(map[int64]uint32)
	}
	(*m)[unzz64(k)] = uint32(v)
	return nil
}

func Spec_DecodeMap_ZigZag64_VarintU64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int64]uint64)(mp)
	if *m == nil {
		*m = make(map[int64]uint64)
	}
	(*m)[unzz64(k)] = v
	return nil
}

func Spec_DecodeMap_ZigZag64_ZigZag32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int64]int32)(mp)
	if *m == nil {
		*m = make(map[int64]int32)
	}
	(*m)[unzz64(k)] = unzz32(v)
	return nil
}

func Spec_DecodeMap_ZigZag64_ZigZag64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int64]int64)(mp)
	if *m == nil {
		*m = make(map[int64]int64)
	}
	(*m)[unzz64(k)] = unzz64(v)
	return nil
}

func Spec_DecodeMap_ZigZag64_Fixed32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed32(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int64]uint32)(mp)
	if *m == nil {
		*m = make(map[int64]uint32)
	}
	(*m)[unzz64(k)] = v
	return nil
}

func Spec_DecodeMap_ZigZag64_Fixed64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed64(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int64]uint64)(mp)
	if *m == nil {
		*m = make(map[int64]uint64)
	}
	(*m)[unzz64(k)] = v
	return nil
}

func Spec_DecodeMap_ZigZag64_Bool(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[int64]bool)(mp)
	if *m == nil {
		*m = make(map[int64]bool)
	}
	(*m)[unzz64(k)] = v != 0
	return nil
}

func Spec_DecodeMap_Fixed32_VarintU32(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed32(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]uint32)(mp)
	if *m == nil {
		*m = make(map[uint32]uint32)
	}
	(*m)[k] = uint32(v)
	return nil
}

func Spec_DecodeMap_Fixed32_VarintU64(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed32(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]uint64)(mp)
	if *m == nil {
		*m = make(map[uint32]uint64)
	}
	(*m)[k] = v
	return nil
}

func Spec_DecodeMap_Fixed32_ZigZag32(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed32(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]int32)(mp)
	if *m == nil {
		*m = make(map[uint32]int32)
	}
	(*m)[k] = unzz32(v)
	return nil
}

func Spec_DecodeMap_Fixed32_ZigZag64(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed32(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]int64)(mp)
	if *m == nil {
		*m = make(map[uint32]int64)
	}
	(*m)[k] = unzz64(v)
	return nil
}

func Spec_DecodeMap_Fixed32_Fixed32(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed32(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed32(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]uint32)(mp)
	if *m == nil {
		*m = make(map[uint32]uint32)
	}
	(*m)[k] = v
	return nil
}

func Spec_DecodeMap_Fixed32_Fixed64(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed32(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed64(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]uint64)(mp)
	if *m == nil {
		*m = make(map[uint32]uint64)
	}
	(*m)[k] = v
	return nil
}

func Spec_DecodeMap_Fixed32_Bool(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed32(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint32]bool)(mp)
	if *m == nil {
		*m = make(map[uint32]bool)
	}
	(*m)[k] = v != 0
	return nil
}

func Spec_DecodeMap_Fixed64_VarintU32(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed64(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]uint32)(mp)
	if *m == nil {
		*m = make(map[uint64]uint32)
	}
	(*m)[k] = uint32(v)
	return nil
}

func Spec_DecodeMap_Fixed64_VarintU64(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed64(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]uint64)(mp)
	if *m == nil {
		*m = make(map[uint64]uint64)
	}
	(*m)[k] = v
	return nil
}

func Spec_DecodeMap_Fixed64_ZigZag32(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed64(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]int32)(mp)
	if *m == nil {
		*m = make(map[uint64]int32)
	}
	(*m)[k] = unzz32(v)
	return nil
}

func Spec_DecodeMap_Fixed64_ZigZag64(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed64(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]int64)(mp)
	if *m == nil {
		*m = make(map[uint64]int64)
	}
	(*m)[k] = unzz64(v)
	return nil
}

func Spec_DecodeMap_Fixed64_Fixed32(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed64(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed32(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]uint32)(mp)
	if *m == nil {
		*m = make(map[uint64]uint32)
	}
	(*m)[k] = v
	return nil
}

func Spec_DecodeMap_Fixed64_Fixed64(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed64(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed64(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]uint64)(mp)
	if *m == nil {
		*m = make(map[uint64]uint64)
	}
	(*m)[k] = v
	return nil
}

func Spec_DecodeMap_Fixed64_Bool(b []byte, mp unsafe.Pointer) error {
	k, n := rdFixed64(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[uint64]bool)(mp)
	if *m == nil {
		*m = make(map[uint64]bool)
	}
	(*m)[k] = v != 0
	return nil
}

func Spec_DecodeMap_Bool_VarintU32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[bool]uint32)(mp)
	if *m == nil {
		*m = make(map[bool]uint32)
	}
	(*m)[k != 0] = uint32(v)
	return nil
}

func Spec_DecodeMap_Bool_VarintU64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[bool]uint64)(mp)
	if *m == nil {
		*m = make(map[bool]uint64)
	}
	(*m)[k != 0] = v
	return nil
}

func Spec_DecodeMap_Bool_ZigZag32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[bool]int32)(mp)
	if *m == nil {
		*m = make(map[bool]int32)
	}
	(*m)[k != 0] = unzz32(v)
	return nil
}

func Spec_DecodeMap_Bool_ZigZag64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[bool]int64)(mp)
	if *m == nil {
		*m = make(map[bool]int64)
	}
	(*m)[k != 0] = unzz64(v)
	return nil
}

func Spec_DecodeMap_Bool_Fixed32(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed32(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[bool]uint32)(mp)
	if *m == nil {
		*m = make(map[bool]uint32)
	}
	(*m)[k != 0] = v
	return nil
}

func Spec_DecodeMap_Bool_Fixed64(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdFixed64(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[bool]uint64)(mp)
	if *m == nil {
		*m = make(map[bool]uint64)
	}
	(*m)[k != 0] = v
	return nil
}

func Spec_DecodeMap_Bool_Bool(b []byte, mp unsafe.Pointer) error {
	k, n := rdVarint(b, 1)
	if n == 0 {
		return vc.Err()
	}
	v, n := rdVarint(b[n:], 2)
	if n == 0 {
		return vc.Err()
	}
	m := (*map[bool]bool)(mp)
	if *m == nil {
		*m = make(map[bool]bool)
	}
	(*m)[k != 0] = v != 0
	return nil
}
