package desc

// Contracts of the descriptor builder (P10, and the invariants the codec
// relies on).

import (
	"reflect"

	"github.com/cloudwego/prutal/internal/vc"
	"github.com/cloudwego/prutal/internal/wire"
)

// ---- what a tag may describe ----

func is32(k reflect.Kind) bool { return k == reflect.Int32 || k == reflect.Uint32 }
func is64(k reflect.Kind) bool { return k == reflect.Int64 || k == reflect.Uint64 }

// represents: a value of kind k can carry the wire encoding t
func represents(t TagType, k reflect.Kind) bool {
	return t == TypeVarint && (is32(k) || is64(k) || k == reflect.Bool) ||
		t == TypeZigZag32 && k == reflect.Int32 ||
		t == TypeZigZag64 && k == reflect.Int64 ||
		t == TypeFixed32 && (is32(k) || k == reflect.Float32) ||
		t == TypeFixed64 && (is64(k) || k == reflect.Float64) ||
		t == TypeBytes && (k == reflect.String || k == KindBytes || k == reflect.Struct || k == reflect.Map)
}

func representsKey(t TagType, k reflect.Kind) bool {
	return represents(t, k) && keyKind(k)
}

func Spec_IsFieldTypeMatchReflectKind(t TagType, k reflect.Kind) error {
	if represents(t, k) {
		return nil
	}
	return vc.Err()
}

func Spec_IsFieldKeyTypeMatchReflectKind(t TagType, k reflect.Kind) error {
	if representsKey(t, k) {
		return nil
	}
	return vc.Err()
}

// ---- codec of a tag ----

func Spec_getCoderType(t TagType, k reflect.Kind) wire.CoderType {
	switch {
	case t == TypeVarint && k == reflect.Int32:
		return wire.CoderVarintI32
	case t == TypeVarint && k == reflect.Uint32:
		return wire.CoderVarintU32
	case t == TypeVarint && is64(k):
		return wire.CoderVarint64
	case t == TypeVarint && k == reflect.Bool:
		return wire.CoderBool
	case t == TypeZigZag32:
		return wire.CoderZigZag32
	case t == TypeZigZag64:
		return wire.CoderZigZag64
	case t == TypeFixed32:
		return wire.CoderFixed32
	case t == TypeFixed64:
		return wire.CoderFixed64
	case t == TypeBytes && k == reflect.String:
		return wire.CoderString
	case t == TypeBytes && k == KindBytes:
		return wire.CoderBytes
	case t == TypeBytes && k == reflect.Struct:
		return wire.CoderStruct
	}
	return wire.CoderUnknown
}

// numeric: a packable encoding; scalar: also strings
func numeric(t TagType, k reflect.Kind) bool {
	return t == TypeVarint && (is32(k) || is64(k) || k == reflect.Bool) || t >= TypeZigZag32 && t <= TypeFixed64
}

func scalar(t TagType, k reflect.Kind) bool {
	return numeric(t, k) || t == TypeBytes && (k == reflect.String || k == KindBytes)
}

func Ensures_getAppendFunc(t TagType, k reflect.Kind, packed bool, r wire.AppendFunc) bool {
	if packed {
		return (r != nil) == numeric(t, k)
	}
	return (r != nil) == scalar(t, k)
}

func Ensures_getSizeFunc(t TagType, k reflect.Kind, r wire.SizeFunc) bool {
	return (r != nil) == scalar(t, k)
}

func Ensures_getAppendListFunc(f *FieldDesc, r wire.AppendRepeatedFunc) bool {
	return (r != nil) == scalar(f.TagType, Ghost_RealKind(f.T))
}

func Requires_getAppendMapFunc(f *FieldDesc) bool { return f.T.K != nil && f.T.V != nil }
func Requires_getSizeMapFunc(f *FieldDesc) bool   { return f.T.K != nil && f.T.V != nil }

func Ensures_getAppendMapFunc(f *FieldDesc, r wire.AppendRepeatedFunc) bool {
	return r == nil || scalar(f.ValType, Ghost_Kind(f.T.V.T))
}

func Ensures_getSizeMapFunc(f *FieldDesc, r wire.SizeMapFunc) bool {
	return r == nil || scalar(f.ValType, Ghost_Kind(f.T.V.T))
}


// ---- kinds ----

// Ghost_Kind is the kind of t, KindBytes for []byte
func Ghost_Kind(t reflect.Type) reflect.Kind  { return 0 }
func Spec_reflectTypeKind(t reflect.Type) reflect.Kind { return Ghost_Kind(t) }
func Def_reflectTypeKind(t reflect.Type) reflect.Kind {
	if t == bytesType {
		return KindBytes
	}
	return t.Kind()
}

// Ghost_RealKind is the kind below pointers and lists
func Ghost_RealKind(t *Type) reflect.Kind { return 0 }

func Def_Type_RealKind(t *Type) reflect.Kind {
	if t.IsPointer || t.IsSlice {
		return Ghost_RealKind(t.V)
	}
	return t.Kind
}

func Spec_Type_RealKind(t *Type) reflect.Kind { return Ghost_RealKind(t) }

// elem: t may be an element of a list, or a key or value of a map
func elem(t *Type) bool {
	if t.IsSlice || t.Kind == reflect.Map {
		return false
	}
	return !t.IsPointer || t.V.Kind == reflect.Struct
}

func Spec_Type_checkElem(t *Type) error {
	if elem(t) {
		return nil
	}
	return vc.Err()
}

// accepted: label, packing and encoding of the tag fit the Go type
func accepted(f *FieldDesc) bool {
	t := f.T
	k := Ghost_RealKind(t)
	if f.Packed && !(f.Repeated && t.IsSlice && f.TagType >= TypeVarint && f.TagType <= TypeFixed64) {
		return false
	}
	if f.Repeated {
		if f.OneofType != nil || !t.IsSlice && t.Kind != reflect.Map || t.IsSlice && !elem(t.V) {
			return false
		}
	} else {
		if t.IsSlice || t.Kind == reflect.Map || t.IsPointer && t.V.IsSlice {
			return false
		}
	}
	if t.IsPointer && t.V.Kind == reflect.Map || !represents(f.TagType, k) {
		return false
	}
	if t.Kind != reflect.Map {
		return true
	}
	return elem(t.K) && elem(t.V) && representsKey(f.KeyType, Ghost_RealKind(t.K)) && represents(f.ValType, Ghost_RealKind(t.V))
}

func Spec_FieldDesc_checkTypeMatch(f *FieldDesc) error {
	if accepted(f) {
		return nil
	}
	return vc.Err()
}
