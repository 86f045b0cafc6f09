package wire

// Code generated by tools/gencontracts.py. DO NOT EDIT.

// Contracts of the codec tables: whatever is registered for a kind of field
// does what the wire format says for that kind.

import (
	"unsafe"

	"github.com/cloudwego/prutal/internal/vc"
)

func Spec_GetMapEncoderFunc(k, v CoderType) AppendRepeatedFunc {
	switch {
	case k == CoderVarintU32 && v == CoderVarintU32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU32_VarintU32)
	case k == CoderVarintU32 && v == CoderVarint64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU32_VarintU64)
	case k == CoderVarintU32 && v == CoderZigZag32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU32_ZigZag32)
	case k == CoderVarintU32 && v == CoderZigZag64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU32_ZigZag64)
	case k == CoderVarintU32 && v == CoderFixed32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU32_Fixed32)
	case k == CoderVarintU32 && v == CoderFixed64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU32_Fixed64)
	case k == CoderVarintU32 && v == CoderBytes:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU32_Bytes)
	case k == CoderVarintU32 && v == CoderString:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU32_String)
	case k == CoderVarintU32 && v == CoderBool:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU32_Bool)
	case k == CoderVarint64 && v == CoderVarintU32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU64_VarintU32)
	case k == CoderVarint64 && v == CoderVarint64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU64_VarintU64)
	case k == CoderVarint64 && v == CoderZigZag32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU64_ZigZag32)
	case k == CoderVarint64 && v == CoderZigZag64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU64_ZigZag64)
	case k == CoderVarint64 && v == CoderFixed32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU64_Fixed32)
	case k == CoderVarint64 && v == CoderFixed64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU64_Fixed64)
	case k == CoderVarint64 && v == CoderBytes:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU64_Bytes)
	case k == CoderVarint64 && v == CoderString:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU64_String)
	case k == CoderVarint64 && v == CoderBool:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_VarintU64_Bool)
	case k == CoderZigZag32 && v == CoderVarintU32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag32_VarintU32)
	case k == CoderZigZag32 && v == CoderVarint64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag32_VarintU64)
	case k == CoderZigZag32 && v == CoderZigZag32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag32_ZigZag32)
	case k == CoderZigZag32 && v == CoderZigZag64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag32_ZigZag64)
	case k == CoderZigZag32 && v == CoderFixed32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag32_Fixed32)
	case k == CoderZigZag32 && v == CoderFixed64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag32_Fixed64)
	case k == CoderZigZag32 && v == CoderBytes:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag32_Bytes)
	case k == CoderZigZag32 && v == CoderString:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag32_String)
	case k == CoderZigZag32 && v == CoderBool:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag32_Bool)
	case k == CoderZigZag64 && v == CoderVarintU32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag64_VarintU32)
	case k == CoderZigZag64 && v == CoderVarint64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag64_VarintU64)
	case k == CoderZigZag64 && v == CoderZigZag32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag64_ZigZag32)
	case k == CoderZigZag64 && v == CoderZigZag64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag64_ZigZag64)
	case k == CoderZigZag64 && v == CoderFixed32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag64_Fixed32)
	case k == CoderZigZag64 && v == CoderFixed64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag64_Fixed64)
	case k == CoderZigZag64 && v == CoderBytes:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag64_Bytes)
	case k == CoderZigZag64 && v == CoderString:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag64_String)
	case k == CoderZigZag64 && v == CoderBool:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_ZigZag64_Bool)
	case k == CoderFixed32 && v == CoderVarintU32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed32_VarintU32)
	case k == CoderFixed32 && v == CoderVarint64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed32_VarintU64)
	case k == CoderFixed32 && v == CoderZigZag32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed32_ZigZag32)
	case k == CoderFixed32 && v == CoderZigZag64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed32_ZigZag64)
	case k == CoderFixed32 && v == CoderFixed32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed32_Fixed32)
	case k == CoderFixed32 && v == CoderFixed64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed32_Fixed64)
	case k == CoderFixed32 && v == CoderBytes:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed32_Bytes)
	case k == CoderFixed32 && v == CoderString:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed32_String)
	case k == CoderFixed32 && v == CoderBool:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed32_Bool)
	case k == CoderFixed64 && v == CoderVarintU32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed64_VarintU32)
	case k == CoderFixed64 && v == CoderVarint64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed64_VarintU64)
	case k == CoderFixed64 && v == CoderZigZag32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed64_ZigZag32)
	case k == CoderFixed64 && v == CoderZigZag64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed64_ZigZag64)
	case k == CoderFixed64 && v == CoderFixed32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed64_Fixed32)
	case k == CoderFixed64 && v == CoderFixed64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed64_Fixed64)
	case k == CoderFixed64 && v == CoderBytes:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed64_Bytes)
	case k == CoderFixed64 && v == CoderString:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed64_String)
	case k == CoderFixed64 && v == CoderBool:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Fixed64_Bool)
	case k == CoderString && v == CoderVarintU32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_String_VarintU32)
	case k == CoderString && v == CoderVarint64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_String_VarintU64)
	case k == CoderString && v == CoderZigZag32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_String_ZigZag32)
	case k == CoderString && v == CoderZigZag64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_String_ZigZag64)
	case k == CoderString && v == CoderFixed32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_String_Fixed32)
	case k == CoderString && v == CoderFixed64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_String_Fixed64)
	case k == CoderString && v == CoderBytes:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_String_Bytes)
	case k == CoderString && v == CoderString:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_String_String)
	case k == CoderString && v == CoderBool:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_String_Bool)
	case k == CoderBool && v == CoderVarintU32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Bool_VarintU32)
	case k == CoderBool && v == CoderVarint64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Bool_VarintU64)
	case k == CoderBool && v == CoderZigZag32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Bool_ZigZag32)
	case k == CoderBool && v == CoderZigZag64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Bool_ZigZag64)
	case k == CoderBool && v == CoderFixed32:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Bool_Fixed32)
	case k == CoderBool && v == CoderFixed64:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Bool_Fixed64)
	case k == CoderBool && v == CoderBytes:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Bool_Bytes)
	case k == CoderBool && v == CoderString:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Bool_String)
	case k == CoderBool && v == CoderBool:
		return vc.OrNil[AppendRepeatedFunc](Spec_AppendMap_Bool_Bool)
	}
	return nil
}

func Spec_GetMapDecoderFunc(k, v CoderType) DecodeFunc {
	switch {
	case k == CoderVarintU32 && v == CoderVarintU32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_VarintU32)
	case k == CoderVarintU32 && v == CoderVarintI32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_VarintU32)
	case k == CoderVarintU32 && v == CoderVarint64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_VarintU64)
	case k == CoderVarintU32 && v == CoderZigZag32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_ZigZag32)
	case k == CoderVarintU32 && v == CoderZigZag64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_ZigZag64)
	case k == CoderVarintU32 && v == CoderFixed32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_Fixed32)
	case k == CoderVarintU32 && v == CoderFixed64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_Fixed64)
	case k == CoderVarintU32 && v == CoderBool:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_Bool)
	case k == CoderVarintI32 && v == CoderVarintU32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_VarintU32)
	case k == CoderVarintI32 && v == CoderVarintI32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_VarintU32)
	case k == CoderVarintI32 && v == CoderVarint64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_VarintU64)
	case k == CoderVarintI32 && v == CoderZigZag32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_ZigZag32)
	case k == CoderVarintI32 && v == CoderZigZag64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_ZigZag64)
	case k == CoderVarintI32 && v == CoderFixed32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_Fixed32)
	case k == CoderVarintI32 && v == CoderFixed64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_Fixed64)
	case k == CoderVarintI32 && v == CoderBool:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU32_Bool)
	case k == CoderVarint64 && v == CoderVarintU32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU64_VarintU32)
	case k == CoderVarint64 && v == CoderVarintI32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU64_VarintU32)
	case k == CoderVarint64 && v == CoderVarint64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU64_VarintU64)
	case k == CoderVarint64 && v == CoderZigZag32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU64_ZigZag32)
	case k == CoderVarint64 && v == CoderZigZag64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU64_ZigZag64)
	case k == CoderVarint64 && v == CoderFixed32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU64_Fixed32)
	case k == CoderVarint64 && v == CoderFixed64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU64_Fixed64)
	case k == CoderVarint64 && v == CoderBool:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_VarintU64_Bool)
	case k == CoderZigZag32 && v == CoderVarintU32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag32_VarintU32)
	case k == CoderZigZag32 && v == CoderVarintI32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag32_VarintU32)
	case k == CoderZigZag32 && v == CoderVarint64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag32_VarintU64)
	case k == CoderZigZag32 && v == CoderZigZag32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag32_ZigZag32)
	case k == CoderZigZag32 && v == CoderZigZag64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag32_ZigZag64)
	case k == CoderZigZag32 && v == CoderFixed32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag32_Fixed32)
	case k == CoderZigZag32 && v == CoderFixed64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag32_Fixed64)
	case k == CoderZigZag32 && v == CoderBool:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag32_Bool)
	case k == CoderZigZag64 && v == CoderVarintU32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag64_VarintU32)
	case k == CoderZigZag64 && v == CoderVarintI32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag64_VarintU32)
	case k == CoderZigZag64 && v == CoderVarint64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag64_VarintU64)
	case k == CoderZigZag64 && v == CoderZigZag32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag64_ZigZag32)
	case k == CoderZigZag64 && v == CoderZigZag64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag64_ZigZag64)
	case k == CoderZigZag64 && v == CoderFixed32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag64_Fixed32)
	case k == CoderZigZag64 && v == CoderFixed64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag64_Fixed64)
	case k == CoderZigZag64 && v == CoderBool:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_ZigZag64_Bool)
	case k == CoderFixed32 && v == CoderVarintU32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed32_VarintU32)
	case k == CoderFixed32 && v == CoderVarintI32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed32_VarintU32)
	case k == CoderFixed32 && v == CoderVarint64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed32_VarintU64)
	case k == CoderFixed32 && v == CoderZigZag32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed32_ZigZag32)
	case k == CoderFixed32 && v == CoderZigZag64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed32_ZigZag64)
	case k == CoderFixed32 && v == CoderFixed32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed32_Fixed32)
	case k == CoderFixed32 && v == CoderFixed64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed32_Fixed64)
	case k == CoderFixed32 && v == CoderBool:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed32_Bool)
	case k == CoderFixed64 && v == CoderVarintU32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed64_VarintU32)
	case k == CoderFixed64 && v == CoderVarintI32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed64_VarintU32)
	case k == CoderFixed64 && v == CoderVarint64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed64_VarintU64)
	case k == CoderFixed64 && v == CoderZigZag32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed64_ZigZag32)
	case k == CoderFixed64 && v == CoderZigZag64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed64_ZigZag64)
	case k == CoderFixed64 && v == CoderFixed32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed64_Fixed32)
	case k == CoderFixed64 && v == CoderFixed64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed64_Fixed64)
	case k == CoderFixed64 && v == CoderBool:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Fixed64_Bool)
	case k == CoderBool && v == CoderVarintU32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Bool_VarintU32)
	case k == CoderBool && v == CoderVarintI32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Bool_VarintU32)
	case k == CoderBool && v == CoderVarint64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Bool_VarintU64)
	case k == CoderBool && v == CoderZigZag32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Bool_ZigZag32)
	case k == CoderBool && v == CoderZigZag64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Bool_ZigZag64)
	case k == CoderBool && v == CoderFixed32:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Bool_Fixed32)
	case k == CoderBool && v == CoderFixed64:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Bool_Fixed64)
	case k == CoderBool && v == CoderBool:
		return vc.OrNil[DecodeFunc](Spec_DecodeMap_Bool_Bool)
	}
	return nil
}

func size_VarintU32(x uint32) int { return vc.VarintLen(uint64(x)) }
func size_VarintU64(x uint64) int { return vc.VarintLen(x) }
func size_VarintI32(x int32) int  { return vc.VarintLen(uint64(int64(x))) }
func size_ZigZag32(x int32) int   { return vc.VarintLen(zz32(x)) }
func size_ZigZag64(x int64) int   { return vc.VarintLen(zz64(x)) }
func size_Fixed32(x uint32) int   { return 4 }
func size_Fixed64(x uint64) int   { return 8 }
func size_Bool(x bool) int        { return 1 }
func size_Bytes(x []byte) int     { return vc.VarintLen(uint64(len(x))) + len(x) }
func size_String(x string) int    { return vc.VarintLen(uint64(len(x))) + len(x) }

func sizeMap_VarintU32_VarintU32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]uint32)(p) {
		e := 2 + size_VarintU32(k) + size_VarintU32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU32_VarintI32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]int32)(p) {
		e := 2 + size_VarintU32(k) + size_VarintI32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU32_VarintU64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]uint64)(p) {
		e := 2 + size_VarintU32(k) + size_VarintU64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU32_ZigZag32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]int32)(p) {
		e := 2 + size_VarintU32(k) + size_ZigZag32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU32_ZigZag64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]int64)(p) {
		e := 2 + size_VarintU32(k) + size_ZigZag64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU32_Fixed32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]uint32)(p) {
		e := 2 + size_VarintU32(k) + size_Fixed32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU32_Fixed64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]uint64)(p) {
		e := 2 + size_VarintU32(k) + size_Fixed64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU32_Bytes(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32][]byte)(p) {
		e := 2 + size_VarintU32(k) + size_Bytes(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU32_String(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]string)(p) {
		e := 2 + size_VarintU32(k) + size_String(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU32_Bool(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]bool)(p) {
		e := 2 + size_VarintU32(k) + size_Bool(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintI32_VarintU32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]uint32)(p) {
		e := 2 + size_VarintI32(k) + size_VarintU32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintI32_VarintI32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]int32)(p) {
		e := 2 + size_VarintI32(k) + size_VarintI32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintI32_VarintU64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]uint64)(p) {
		e := 2 + size_VarintI32(k) + size_VarintU64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintI32_ZigZag32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]int32)(p) {
		e := 2 + size_VarintI32(k) + size_ZigZag32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintI32_ZigZag64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]int64)(p) {
		e := 2 + size_VarintI32(k) + size_ZigZag64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintI32_Fixed32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]uint32)(p) {
		e := 2 + size_VarintI32(k) + size_Fixed32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintI32_Fixed64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]uint64)(p) {
		e := 2 + size_VarintI32(k) + size_Fixed64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintI32_Bytes(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32][]byte)(p) {
		e := 2 + size_VarintI32(k) + size_Bytes(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintI32_String(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]string)(p) {
		e := 2 + size_VarintI32(k) + size_String(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintI32_Bool(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]bool)(p) {
		e := 2 + size_VarintI32(k) + size_Bool(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU64_VarintU32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]uint32)(p) {
		e := 2 + size_VarintU64(k) + size_VarintU32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU64_VarintI32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]int32)(p) {
		e := 2 + size_VarintU64(k) + size_VarintI32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU64_VarintU64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]uint64)(p) {
		e := 2 + size_VarintU64(k) + size_VarintU64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU64_ZigZag32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]int32)(p) {
		e := 2 + size_VarintU64(k) + size_ZigZag32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU64_ZigZag64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]int64)(p) {
		e := 2 + size_VarintU64(k) + size_ZigZag64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU64_Fixed32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]uint32)(p) {
		e := 2 + size_VarintU64(k) + size_Fixed32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU64_Fixed64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]uint64)(p) {
		e := 2 + size_VarintU64(k) + size_Fixed64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU64_Bytes(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64][]byte)(p) {
		e := 2 + size_VarintU64(k) + size_Bytes(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU64_String(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]string)(p) {
		e := 2 + size_VarintU64(k) + size_String(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_VarintU64_Bool(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]bool)(p) {
		e := 2 + size_VarintU64(k) + size_Bool(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag32_VarintU32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]uint32)(p) {
		e := 2 + size_ZigZag32(k) + size_VarintU32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag32_VarintI32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]int32)(p) {
		e := 2 + size_ZigZag32(k) + size_VarintI32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag32_VarintU64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]uint64)(p) {
		e := 2 + size_ZigZag32(k) + size_VarintU64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag32_ZigZag32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]int32)(p) {
		e := 2 + size_ZigZag32(k) + size_ZigZag32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag32_ZigZag64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]int64)(p) {
		e := 2 + size_ZigZag32(k) + size_ZigZag64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag32_Fixed32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]uint32)(p) {
		e := 2 + size_ZigZag32(k) + size_Fixed32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag32_Fixed64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]uint64)(p) {
		e := 2 + size_ZigZag32(k) + size_Fixed64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag32_Bytes(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32][]byte)(p) {
		e := 2 + size_ZigZag32(k) + size_Bytes(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag32_String(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]string)(p) {
		e := 2 + size_ZigZag32(k) + size_String(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag32_Bool(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int32]bool)(p) {
		e := 2 + size_ZigZag32(k) + size_Bool(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag64_VarintU32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int64]uint32)(p) {
		e := 2 + size_ZigZag64(k) + size_VarintU32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag64_VarintI32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int64]int32)(p) {
		e := 2 + size_ZigZag64(k) + size_VarintI32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag64_VarintU64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int64]uint64)(p) {
		e := 2 + size_ZigZag64(k) + size_VarintU64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag64_ZigZag32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int64]int32)(p) {
		e := 2 + size_ZigZag64(k) + size_ZigZag32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag64_ZigZag64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int64]int64)(p) {
		e := 2 + size_ZigZag64(k) + size_ZigZag64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag64_Fixed32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int64]uint32)(p) {
		e := 2 + size_ZigZag64(k) + size_Fixed32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag64_Fixed64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int64]uint64)(p) {
		e := 2 + size_ZigZag64(k) + size_Fixed64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag64_Bytes(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int64][]byte)(p) {
		e := 2 + size_ZigZag64(k) + size_Bytes(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag64_String(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int64]string)(p) {
		e := 2 + size_ZigZag64(k) + size_String(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_ZigZag64_Bool(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[int64]bool)(p) {
		e := 2 + size_ZigZag64(k) + size_Bool(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed32_VarintU32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]uint32)(p) {
		e := 2 + size_Fixed32(k) + size_VarintU32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed32_VarintI32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]int32)(p) {
		e := 2 + size_Fixed32(k) + size_VarintI32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed32_VarintU64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]uint64)(p) {
		e := 2 + size_Fixed32(k) + size_VarintU64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed32_ZigZag32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]int32)(p) {
		e := 2 + size_Fixed32(k) + size_ZigZag32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed32_ZigZag64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]int64)(p) {
		e := 2 + size_Fixed32(k) + size_ZigZag64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed32_Fixed32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]uint32)(p) {
		e := 2 + size_Fixed32(k) + size_Fixed32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed32_Fixed64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]uint64)(p) {
		e := 2 + size_Fixed32(k) + size_Fixed64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed32_Bytes(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32][]byte)(p) {
		e := 2 + size_Fixed32(k) + size_Bytes(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed32_String(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]string)(p) {
		e := 2 + size_Fixed32(k) + size_String(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed32_Bool(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint32]bool)(p) {
		e := 2 + size_Fixed32(k) + size_Bool(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed64_VarintU32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]uint32)(p) {
		e := 2 + size_Fixed64(k) + size_VarintU32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed64_VarintI32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]int32)(p) {
		e := 2 + size_Fixed64(k) + size_VarintI32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed64_VarintU64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]uint64)(p) {
		e := 2 + size_Fixed64(k) + size_VarintU64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed64_ZigZag32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]int32)(p) {
		e := 2 + size_Fixed64(k) + size_ZigZag32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed64_ZigZag64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]int64)(p) {
		e := 2 + size_Fixed64(k) + size_ZigZag64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed64_Fixed32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]uint32)(p) {
		e := 2 + size_Fixed64(k) + size_Fixed32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed64_Fixed64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]uint64)(p) {
		e := 2 + size_Fixed64(k) + size_Fixed64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed64_Bytes(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64][]byte)(p) {
		e := 2 + size_Fixed64(k) + size_Bytes(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed64_String(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]string)(p) {
		e := 2 + size_Fixed64(k) + size_String(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Fixed64_Bool(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[uint64]bool)(p) {
		e := 2 + size_Fixed64(k) + size_Bool(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_String_VarintU32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[string]uint32)(p) {
		e := 2 + size_String(k) + size_VarintU32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_String_VarintI32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[string]int32)(p) {
		e := 2 + size_String(k) + size_VarintI32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_String_VarintU64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[string]uint64)(p) {
		e := 2 + size_String(k) + size_VarintU64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_String_ZigZag32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[string]int32)(p) {
		e := 2 + size_String(k) + size_ZigZag32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_String_ZigZag64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[string]int64)(p) {
		e := 2 + size_String(k) + size_ZigZag64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_String_Fixed32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[string]uint32)(p) {
		e := 2 + size_String(k) + size_Fixed32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_String_Fixed64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[string]uint64)(p) {
		e := 2 + size_String(k) + size_Fixed64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_String_Bytes(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[string][]byte)(p) {
		e := 2 + size_String(k) + size_Bytes(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_String_String(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[string]string)(p) {
		e := 2 + size_String(k) + size_String(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_String_Bool(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[string]bool)(p) {
		e := 2 + size_String(k) + size_Bool(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Bool_VarintU32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[bool]uint32)(p) {
		e := 2 + size_Bool(k) + size_VarintU32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Bool_VarintI32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[bool]int32)(p) {
		e := 2 + size_Bool(k) + size_VarintI32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Bool_VarintU64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[bool]uint64)(p) {
		e := 2 + size_Bool(k) + size_VarintU64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Bool_ZigZag32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[bool]int32)(p) {
		e := 2 + size_Bool(k) + size_ZigZag32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Bool_ZigZag64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[bool]int64)(p) {
		e := 2 + size_Bool(k) + size_ZigZag64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Bool_Fixed32(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[bool]uint32)(p) {
		e := 2 + size_Bool(k) + size_Fixed32(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Bool_Fixed64(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[bool]uint64)(p) {
		e := 2 + size_Bool(k) + size_Fixed64(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Bool_Bytes(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[bool][]byte)(p) {
		e := 2 + size_Bool(k) + size_Bytes(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Bool_String(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[bool]string)(p) {
		e := 2 + size_Bool(k) + size_String(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func sizeMap_Bool_Bool(p unsafe.Pointer, wireTagSize int) int {
	n := 0
	for k, v := range *(*map[bool]bool)(p) {
		e := 2 + size_Bool(k) + size_Bool(v)
		n += wireTagSize + vc.VarintLen(uint64(e)) + e
	}
	return n
}

func Spec_GetMapSizeFunc(k, v CoderType) SizeMapFunc {
	switch {
	case k == CoderVarintU32 && v == CoderVarintU32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU32_VarintU32)
	case k == CoderVarintU32 && v == CoderVarintI32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU32_VarintI32)
	case k == CoderVarintU32 && v == CoderVarint64:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU32_VarintU64)
	case k == CoderVarintU32 && v == CoderZigZag32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU32_ZigZag32)
	case k == CoderVarintU32 && v == CoderZigZag64:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU32_ZigZag64)
	case k == CoderVarintU32 && v == CoderFixed32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU32_Fixed32)
	case k == CoderVarintU32 && v == CoderFixed64:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU32_Fixed64)
	case k == CoderVarintU32 && v == CoderBytes:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU32_Bytes)
	case k == CoderVarintU32 && v == CoderString:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU32_String)
	case k == CoderVarintU32 && v == CoderBool:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU32_Bool)
	case k == CoderVarintI32 && v == CoderVarintU32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintI32_VarintU32)
	case k == CoderVarintI32 && v == CoderVarintI32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintI32_VarintI32)
	case k == CoderVarintI32 && v == CoderVarint64:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintI32_VarintU64)
	case k == CoderVarintI32 && v == CoderZigZag32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintI32_ZigZag32)
	case k == CoderVarintI32 && v == CoderZigZag64:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintI32_ZigZag64)
	case k == CoderVarintI32 && v == CoderFixed32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintI32_Fixed32)
	case k == CoderVarintI32 && v == CoderFixed64:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintI32_Fixed64)
	case k == CoderVarintI32 && v == CoderBytes:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintI32_Bytes)
	case k == CoderVarintI32 && v == CoderString:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintI32_String)
	case k == CoderVarintI32 && v == CoderBool:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintI32_Bool)
	case k == CoderVarint64 && v == CoderVarintU32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU64_VarintU32)
	case k == CoderVarint64 && v == CoderVarintI32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU64_VarintI32)
	case k == CoderVarint64 && v == CoderVarint64:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU64_VarintU64)
	case k == CoderVarint64 && v == CoderZigZag32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU64_ZigZag32)
	case k == CoderVarint64 && v == CoderZigZag64:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU64_ZigZag64)
	case k == CoderVarint64 && v == CoderFixed32:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU64_Fixed32)
	case k == CoderVarint64 && v == CoderFixed64:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU64_Fixed64)
	case k == CoderVarint64 && v == CoderBytes:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU64_Bytes)
	case k == CoderVarint64 && v == CoderString:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU64_String)
	case k == CoderVarint64 && v == CoderBool:
		return vc.OrNil[SizeMapFunc](sizeMap_VarintU64_Bool)
	case k == CoderZigZag32 && v == CoderVarintU32:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag32_VarintU32)
	case k == CoderZigZag32 && v == CoderVarintI32:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag32_VarintI32)
	case k == CoderZigZag32 && v == CoderVarint64:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag32_VarintU64)
	case k == CoderZigZag32 && v == CoderZigZag32:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag32_ZigZag32)
	case k == CoderZigZag32 && v == CoderZigZag64:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag32_ZigZag64)
	case k == CoderZigZag32 && v == CoderFixed32:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag32_Fixed32)
	case k == CoderZigZag32 && v == CoderFixed64:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag32_Fixed64)
	case k == CoderZigZag32 && v == CoderBytes:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag32_Bytes)
	case k == CoderZigZag32 && v == CoderString:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag32_String)
	case k == CoderZigZag32 && v == CoderBool:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag32_Bool)
	case k == CoderZigZag64 && v == CoderVarintU32:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag64_VarintU32)
	case k == CoderZigZag64 && v == CoderVarintI32:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag64_VarintI32)
	case k == CoderZigZag64 && v == CoderVarint64:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag64_VarintU64)
	case k == CoderZigZag64 && v == CoderZigZag32:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag64_ZigZag32)
	case k == CoderZigZag64 && v == CoderZigZag64:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag64_ZigZag64)
	case k == CoderZigZag64 && v == CoderFixed32:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag64_Fixed32)
	case k == CoderZigZag64 && v == CoderFixed64:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag64_Fixed64)
	case k == CoderZigZag64 && v == CoderBytes:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag64_Bytes)
	case k == CoderZigZag64 && v == CoderString:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag64_String)
	case k == CoderZigZag64 && v == CoderBool:
		return vc.OrNil[SizeMapFunc](sizeMap_ZigZag64_Bool)
	case k == CoderFixed32 && v == CoderVarintU32:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed32_VarintU32)
	case k == CoderFixed32 && v == CoderVarintI32:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed32_VarintI32)
	case k == CoderFixed32 && v == CoderVarint64:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed32_VarintU64)
	case k == CoderFixed32 && v == CoderZigZag32:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed32_ZigZag32)
	case k == CoderFixed32 && v == CoderZigZag64:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed32_ZigZag64)
	case k == CoderFixed32 && v == CoderFixed32:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed32_Fixed32)
	case k == CoderFixed32 && v == CoderFixed64:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed32_Fixed64)
	case k == CoderFixed32 && v == CoderBytes:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed32_Bytes)
	case k == CoderFixed32 && v == CoderString:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed32_String)
	case k == CoderFixed32 && v == CoderBool:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed32_Bool)
	case k == CoderFixed64 && v == CoderVarintU32:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed64_VarintU32)
	case k == CoderFixed64 && v == CoderVarintI32:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed64_VarintI32)
	case k == CoderFixed64 && v == CoderVarint64:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed64_VarintU64)
	case k == CoderFixed64 && v == CoderZigZag32:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed64_ZigZag32)
	case k == CoderFixed64 && v == CoderZigZag64:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed64_ZigZag64)
	case k == CoderFixed64 && v == CoderFixed32:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed64_Fixed32)
	case k == CoderFixed64 && v == CoderFixed64:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed64_Fixed64)
	case k == CoderFixed64 && v == CoderBytes:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed64_Bytes)
	case k == CoderFixed64 && v == CoderString:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed64_String)
	case k == CoderFixed64 && v == CoderBool:
		return vc.OrNil[SizeMapFunc](sizeMap_Fixed64_Bool)
	case k == CoderString && v == CoderVarintU32:
		return vc.OrNil[SizeMapFunc](sizeMap_String_VarintU32)
	case k == CoderString && v == CoderVarintI32:
		return vc.OrNil[SizeMapFunc](sizeMap_String_VarintI32)
	case k == CoderString && v == CoderVarint64:
		return vc.OrNil[SizeMapFunc](sizeMap_String_VarintU64)
	case k == CoderString && v == CoderZigZag32:
		return vc.OrNil[SizeMapFunc](sizeMap_String_ZigZag32)
	case k == CoderString && v == CoderZigZag64:
		return vc.OrNil[SizeMapFunc](sizeMap_String_ZigZag64)
	case k == CoderString && v == CoderFixed32:
		return vc.OrNil[SizeMapFunc](sizeMap_String_Fixed32)
	case k == CoderString && v == CoderFixed64:
		return vc.OrNil[SizeMapFunc](sizeMap_String_Fixed64)
	case k == CoderString && v == CoderBytes:
		return vc.OrNil[SizeMapFunc](sizeMap_String_Bytes)
	case k == CoderString && v == CoderString:
		return vc.OrNil[SizeMapFunc](sizeMap_String_String)
	case k == CoderString && v == CoderBool:
		return vc.OrNil[SizeMapFunc](sizeMap_String_Bool)
	case k == CoderBool && v == CoderVarintU32:
		return vc.OrNil[SizeMapFunc](sizeMap_Bool_VarintU32)
	case k == CoderBool && v == CoderVarintI32:
		return vc.OrNil[SizeMapFunc](sizeMap_Bool_VarintI32)
	case k == CoderBool && v == CoderVarint64:
		return vc.OrNil[SizeMapFunc](sizeMap_Bool_VarintU64)
	case k == CoderBool && v == CoderZigZag32:
		return vc.OrNil[SizeMapFunc](sizeMap_Bool_ZigZag32)
	case k == CoderBool && v == CoderZigZag64:
		return vc.OrNil[SizeMapFunc](sizeMap_Bool_ZigZag64)
	case k == CoderBool && v == CoderFixed32:
		return vc.OrNil[SizeMapFunc](sizeMap_Bool_Fixed32)
	case k == CoderBool && v == CoderFixed64:
		return vc.OrNil[SizeMapFunc](sizeMap_Bool_Fixed64)
	case k == CoderBool && v == CoderBytes:
		return vc.OrNil[SizeMapFunc](sizeMap_Bool_Bytes)
	case k == CoderBool && v == CoderString:
		return vc.OrNil[SizeMapFunc](sizeMap_Bool_String)
	case k == CoderBool && v == CoderBool:
		return vc.OrNil[SizeMapFunc](sizeMap_Bool_Bool)
	}
	return nil
}

func Spec_GetPackedDecoderFunc(c CoderType) DecodeFunc {
	switch {
	case c == CoderVarintU32:
		return vc.OrNil[DecodeFunc](Spec_DecodePackedVarintU32)
	case c == CoderVarintI32:
		return vc.OrNil[DecodeFunc](Spec_DecodePackedVarintU32)
	case c == CoderVarint64:
		return vc.OrNil[DecodeFunc](Spec_DecodePackedVarintU64)
	case c == CoderZigZag32:
		return vc.OrNil[DecodeFunc](Spec_DecodePackedZigZag32)
	case c == CoderZigZag64:
		return vc.OrNil[DecodeFunc](Spec_DecodePackedZigZag64)
	case c == CoderFixed32:
		return vc.OrNil[DecodeFunc](Spec_DecodePackedFixed32)
	case c == CoderFixed64:
		return vc.OrNil[DecodeFunc](Spec_DecodePackedFixed64)
	case c == CoderBool:
		return vc.OrNil[DecodeFunc](Spec_DecodePackedBool)
	}
	return nil
}

func Spec_GetAppendListFunc(t CoderType) AppendRepeatedFunc {
	switch {
	case t == CoderVarintU32:
		return Spec_UnsafeAppendVarintU32List
	case t == CoderVarintI32:
		return Spec_UnsafeAppendVarintI32List
	case t == CoderVarint64:
		return Spec_UnsafeAppendVarintU64List
	case t == CoderZigZag32:
		return Spec_UnsafeAppendZigZag32List
	case t == CoderZigZag64:
		return Spec_UnsafeAppendZigZag64List
	case t == CoderFixed32:
		return Spec_UnsafeAppendFixed32List
	case t == CoderFixed64:
		return Spec_UnsafeAppendFixed64List
	case t == CoderBytes:
		return Spec_UnsafeAppendBytesList
	case t == CoderString:
		return Spec_UnsafeAppendStringList
	case t == CoderBool:
		return Spec_UnsafeAppendBoolList
	}
	return nil
}

func Spec_GetSizeFunc(t CoderType) SizeFunc {
	switch {
	case t == CoderVarintU32:
		return Spec_UnsafeSizeVarintU32
	case t == CoderVarintI32:
		return Spec_UnsafeSizeVarintI32
	case t == CoderVarint64:
		return Spec_UnsafeSizeVarintU64
	case t == CoderZigZag32:
		return Spec_UnsafeSizeZigZag32
	case t == CoderZigZag64:
		return Spec_UnsafeSizeZigZag64
	case t == CoderFixed32:
		return Spec_UnsafeSizeFixed32
	case t == CoderFixed64:
		return Spec_UnsafeSizeFixed64
	case t == CoderBytes:
		return Spec_UnsafeSizeString
	case t == CoderString:
		return Spec_UnsafeSizeString
	case t == CoderBool:
		return Spec_UnsafeSizeBool
	}
	return nil
}

func Spec_GetAppendFunc(t CoderType, packed bool) AppendFunc {
	switch {
	case packed && t == CoderVarintU32:
		return Spec_UnsafeAppendPackedVarintU32
	case packed && t == CoderVarintI32:
		return Spec_UnsafeAppendPackedVarintI32
	case packed && t == CoderVarint64:
		return Spec_UnsafeAppendPackedVarintU64
	case packed && t == CoderZigZag32:
		return Spec_UnsafeAppendPackedZigZag32
	case packed && t == CoderZigZag64:
		return Spec_UnsafeAppendPackedZigZag64
	case packed && t == CoderFixed32:
		return Spec_UnsafeAppendPackedFixed32
	case packed && t == CoderFixed64:
		return Spec_UnsafeAppendPackedFixed64
	case packed && t == CoderBool:
		return Spec_UnsafeAppendPackedBool
	case !packed && t == CoderVarintU32:
		return Spec_UnsafeAppendVarintU32
	case !packed && t == CoderVarintI32:
		return Spec_UnsafeAppendVarintI32
	case !packed && t == CoderVarint64:
		return Spec_UnsafeAppendVarintU64
	case !packed && t == CoderZigZag32:
		return Spec_UnsafeAppendZigZag32
	case !packed && t == CoderZigZag64:
		return Spec_UnsafeAppendZigZag64
	case !packed && t == CoderFixed32:
		return Spec_UnsafeAppendFixed32
	case !packed && t == CoderFixed64:
		return Spec_UnsafeAppendFixed64
	case !packed && t == CoderBytes:
		return Spec_UnsafeAppendString
	case !packed && t == CoderString:
		return Spec_UnsafeAppendString
	case !packed && t == CoderBool:
		return Spec_UnsafeAppendBool
	}
	return nil
}
