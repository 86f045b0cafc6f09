package prutalgen

import (
	"strconv"
	"strings"

	"github.com/cloudwego/prutal/internal/vc"
	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/strs"
)

func Spec_reservedRanges_declared(rr reservedRanges, v int32) bool {
	for i := 0; i < len(rr); i++ {
		if rr[i].from <= v && v <= rr[i].to {
			return true
		}
	}
	return false
}

func Spec_reservedRanges_In(rr reservedRanges, v int32) bool {
	return 19000 <= v && v <= 19999 || rr.declared(v)
}

func Spec_Directives_Has(dd Directives, d string) bool {
	for i := 0; i < len(dd); i++ {
		if dd[i] == d {
			return true
		}
	}
	return false
}

func Spec_Options_Get(oo Options, name string) (string, bool) {
	for i := len(oo); i > 0; i-- {
		if oo[i-1].Name == name {
			return oo[i-1].Value, true
		}
	}
	return "", false
}

func Spec_Options_Is(oo Options, name, value string) bool {
	s, ok := oo.Get(name)
	return ok && s == value
}

func Spec_hasPathPrefix(a, b string) bool {
	return len(a) > len(b) && a[len(b)] == '.' && a[:len(b)] == b
}

func Spec_trimPathPrefix(a, b string) (string, bool) {
	if hasPathPrefix(a, b) {
		return a[len(b)+1:], true
	}
	return a, false
}

func Spec_isfalse(v string) bool { return v == "false" }
func Spec_istrue(v string) bool  { return v == "true" }

func Spec_Directives_IsSet(dd Directives, d string) (bool, bool) {
	no := "no_" + d
	for i := 0; i < len(dd); i++ {
		if dd[i] == d {
			return true, true
		}
		if dd[i] == no {
			return false, true
		}
	}
	return false, false
}

// ---- presence, packing and Go types (P13, P14) ----

func Spec_Type_IsMessage(t *Type) bool { _, ok := t.typ.(*Message); return ok && t.Message() != nil }

func Spec_Field_IsMap(f *Field) bool     { return f.Key != nil }
func Spec_Field_IsEnum(f *Field) bool    { return f.Key == nil && f.Type.IsEnum() }
func Spec_Field_IsMessage(f *Field) bool { return f.Key == nil && f.Type.IsMessage() }

func Spec_Field_genNoPointer(f *Field) bool {
	if f.Directives.Has("no_pointer") || f.Msg != nil && f.Msg.Directives.Has("no_pointer") {
		return true
	}
	v, ok := f.Options.Get("(gogoproto.nullable)")
	return ok && v == "false"
}

func Spec_Field_isRequired(f *Field) bool {
	return f.Required || f.Msg != nil && f.Msg.Proto.Edition == "2023" && f.Options.Is("features.field_presence", "LEGACY_REQUIRED")
}

func packable(t *Type) bool {
	switch t.Name {
	case "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
		"fixed32", "fixed64", "sfixed32", "sfixed64", "bool":
		return true
	}
	return t.IsEnum()
}

func Spec_Field_IsPackedEncoding(f *Field) bool {
	if f.Key != nil || !packable(f.Type) {
		return false
	}
	switch f.Msg.Proto.Edition {
	case "proto2":
		return f.Options.Is("packed", "true")
	case "2023":
		if v, ok := f.Options.Get("features.repeated_field_encoding"); ok {
			return v == "PACKED"
		}
		v, ok := f.Msg.Proto.Options.Get("features.repeated_field_encoding")
		return !ok || v == "PACKED"
	}
	return !f.Options.Is("packed", "false")
}

func Spec_Field_IsPointer(f *Field) bool {
	if f.genNoPointer() || f.Key != nil || f.Repeated || f.Type.GoName() == "[]byte" {
		return false
	}
	if f.Type.IsMessage() || f.Optional {
		return true
	}
	if f.Oneof != nil {
		return false
	}
	switch f.Msg.Proto.Edition {
	case "proto2":
		return true
	case "2023":
		if v, ok := f.Options.Get("features.field_presence"); ok {
			return v != "IMPLICIT"
		}
		v, ok := f.Msg.Proto.Options.Get("features.field_presence")
		return !ok || v != "IMPLICIT"
	}
	return false
}

func Spec_Type_EncodingType(t *Type) string {
	switch t.typ.(type) {
	case *Message:
		return "bytes"
	case *Enum:
		return "varint"
	}
	switch t.Name {
	case "int32", "int64", "uint32", "uint64", "bool":
		return "varint"
	case "sint32":
		return "zigzag32"
	case "sint64":
		return "zigzag64"
	case "fixed32", "sfixed32", "float":
		return "fixed32"
	case "fixed64", "sfixed64", "double":
		return "fixed64"
	}
	return "bytes"
}

func Requires_Type_EncodingType(t *Type) bool {
	return Ghost_resolved(t)
}

// Ghost_resolved says that resolve accepted t: t has a definition or is a scalar.
func Ghost_resolved(t *Type) bool { panic("ghost") }

func Assumes_Type_EncodingType(t *Type) bool {
	_, ok := scalar2GoTypes[t.Name]
	return !Ghost_resolved(t) || t.typ != nil || ok
}

func Spec_Type_GoImport(t *Type) string {
	if t.p != nil {
		return t.p.GoImport
	}
	if t.f != nil {
		return t.f.Msg.Proto.GoImport
	}
	if t.m != nil {
		return t.m.Service.Proto.GoImport
	}
	return ""
}

func Spec_Type_goPkgName(t *Type) string {
	if p := t.proto(); p != nil {
		return p.goPkgName(t.p)
	}
	return t.p.defaultGoPkgName()
}

func Opaque_Type_GoImport()  {}
func Opaque_Type_goPkgName() {}

func Spec_Message_genUnknownFields(m *Message) bool {
	if v, ok := m.Directives.IsSet("unknown_fields"); ok {
		return v
	}
	if v, ok := m.Proto.Directives.IsSet("unknown_fields"); ok {
		return v
	}
	if v, ok := m.Options.Get("(gogoproto.goproto_unrecognized)"); ok {
		return v == "true"
	}
	v, ok := m.Proto.Options.Get("(gogoproto.goproto_unrecognized_all)")
	return ok && v == "true"
}

func Spec_Enum_genMapping(e *Enum) bool {
	return !e.Directives.Has("no_enum_mapping") && !e.Proto.Directives.Has("no_enum_mapping")
}

func Spec_Enum_genNoPrefix(e *Enum) bool {
	if e.Directives.Has("no_enum_prefix") || e.Proto.Directives.Has("no_enum_prefix") {
		return true
	}
	if v, ok := e.Options.Get("(gogoproto.goproto_enum_prefix)"); ok {
		return v == "false"
	}
	v, ok := e.Proto.Options.Get("(gogoproto.goproto_enum_prefix_all)")
	return ok && v == "false"
}

func Spec_EnumField_genNoPrefix(x *EnumField) bool {
	return x.Directives.Has("no_enum_prefix") || x.Enum.genNoPrefix()
}

// ---- numbering (P15) ----

func Spec_Message_IsReservedField(m *Message, v int32) bool {
	return 19000 <= v && v <= 19999 || m.reserved.declared(v)
}

func Spec_Enum_IsReservedField(e *Enum, v int32) bool { return e.reserved.declared(v) }

func Spec_Enum_allowAlias(e *Enum) bool { return e.Options.Is("allow_alias", "true") }

func Spec_verifyOption(name, v string) bool {
	switch name {
	case "features.repeated_field_encoding":
		return v == "EXPANDED" || v == "PACKED"
	case "features.field_presence":
		return v == "EXPLICIT" || v == "IMPLICIT"
	case "packed", "allow_alias":
		return v == "true" || v == "false"
	}
	return true
}

// Ghost_goPkgName is the name under which the package of x is imported by the
// code generated for p; that it is unique in p is decided by the bounded check.
func Ghost_goPkgName(p, x *Proto) string { panic("ghost") }

func Model_Proto_goPkgName(p, x *Proto) string { return Ghost_goPkgName(p, x) }

func Spec_Type_proto(t *Type) *Proto {
	if t.f != nil && t.f.Msg != nil {
		return t.f.Msg.Proto
	}
	if t.m != nil {
		return t.m.Service.Proto
	}
	return nil
}

func Spec_Type_GoName(t *Type) string {
	name := ""
	switch d := t.typ.(type) {
	case *Message:
		name = d.GoName
	case *Enum:
		name = d.GoName
	default:
		switch t.Name {
		case "double":
			return "float64"
		case "float":
			return "float32"
		case "int32", "sint32", "sfixed32":
			return "int32"
		case "int64", "sint64", "sfixed64":
			return "int64"
		case "uint32", "fixed32":
			return "uint32"
		case "uint64", "fixed64":
			return "uint64"
		case "bool", "string":
			return t.Name
		case "bytes":
			return "[]byte"
		}
		return ""
	}
	if t.p == nil {
		return name
	}
	return t.goPkgName() + "." + name
}

// Inv_Type: a type is a scalar or what resolve found for it, a message or an enum.
func Inv_Type(t *Type) bool {
	switch t.typ.(type) {
	case nil, *Message, *Enum:
		return true
	}
	return false
}

func Spec_goTypeName(t *Type, noptr bool) string {
	if t.IsMessage() && !noptr {
		return "*" + t.GoName()
	}
	return t.GoName()
}

func Spec_Field_GoTypeName(f *Field) string {
	noptr := f.genNoPointer()
	switch {
	case f.Key != nil:
		return "map[" + f.Key.GoName() + "]" + goTypeName(f.Type, noptr)
	case f.Repeated:
		return "[]" + goTypeName(f.Type, noptr)
	case f.IsPointer():
		return "*" + f.Type.GoName()
	}
	return f.Type.GoName()
}

func Ensures_Field_GoTypeName(f *Field, r string) bool { return len(r) > 0 }

// Assumes_Field_GoTypeName: it is asked once types are resolved, and they have names.
func Assumes_Field_GoTypeName(f *Field) bool { return len(f.Type.GoName()) > 0 }

func Spec_Field_GoZero(f *Field) string {
	if f.Key != nil || f.Repeated {
		return "nil"
	}
	if f.Type.IsEnum() {
		e := f.Type.Enum()
		for i := 0; i < len(e.Fields); i++ {
			if e.Fields[i].Value == 0 {
				if f.Type.p == nil {
					return e.Fields[i].GoName
				}
				return f.Type.goPkgName() + "." + e.Fields[i].GoName
			}
		}
		return "0"
	}
	t := f.Type.GoName()
	switch {
	case t == "bool":
		return "false"
	case t == "string":
		return "\"\""
	case t == "int32" || t == "int64" || t == "uint32" || t == "uint64" || t == "float32" || t == "float64":
		return "0"
	case t != "[]byte" && f.Type.IsMessage() && f.genNoPointer():
		return t + "{}"
	}
	return "nil"
}

func Opaque_Field_GoZero()             {}
func Opaque_Message_genUnknownFields() {}
func Opaque_Oneof_FieldName()          {}
func Opaque_Oneof_FieldType()          {}

func Spec_Field_OneofStructName(f *Field) string {
	return f.Msg.GoName + "_" + f.GoName + f.oneofTypeSuffix
}

// Assumes_Field_OneofStructName: it is asked of the fields oneofs list, which belong to them.
func Assumes_Field_OneofStructName(f *Field) bool { return f.Oneof != nil }

func Spec_Oneof_FieldName(o *Oneof) string {
	if o.GoName == "" {
		return strs.GoCamelCase(o.Name)
	}
	return o.GoName
}

func Spec_Oneof_FieldType(o *Oneof) string { return "is" + o.Msg.GoName + "_" + o.FieldName() }

func Requires_GoCodeGen_FieldStructTag(g *GoCodeGen, f *Field) bool {
	return Requires_Type_EncodingType(f.Type) && (f.Key == nil || Requires_Type_EncodingType(f.Key))
}

func Spec_GoCodeGen_FieldStructTag(g *GoCodeGen, f *Field) []byte {
	enc, label := f.Type.EncodingType(), "opt"
	if f.Key != nil {
		enc, label = "bytes", "rep"
	} else if f.Repeated && f.IsPackedEncoding() {
		label = "rep,packed"
	} else if f.Repeated {
		label = "rep"
	} else if f.isRequired() {
		label = "req"
	}
	b := append([]byte(nil), "protobuf:\""...)
	b = append(b, enc...)
	b = append(b, ","...)
	b = strconv.AppendInt(b, int64(f.FieldNumber), 10)
	b = append(b, ","...)
	b = append(b, label...)
	b = append(b, ",name="...)
	b = append(b, f.Name...)
	b = append(b, "\" json:\""...)
	b = append(b, f.Name...)
	b = append(b, ",omitempty\""...)
	if f.Key != nil {
		b = append(b, " protobuf_key:\""...)
		b = append(b, f.Key.EncodingType()...)
		b = append(b, ",1,opt,name=key\" protobuf_val:\""...)
		b = append(b, f.Type.EncodingType()...)
		b = append(b, ",2,opt,name=value\""...)
	}
	return b
}

// ---- name resolution (P16) ----

func Spec_Message_getType(m *Message, name string) any {
	if name == m.Name {
		return m
	}
	rest, ok := trimPathPrefix(name, m.Name)
	if !ok {
		return nil
	}
	for i := 0; i < len(m.Enums); i++ {
		if m.Enums[i].Name == rest {
			return m.Enums[i]
		}
	}
	for i := 0; i < len(m.Messages); i++ {
		if v := m.Messages[i].getType(rest); v != nil {
			return v
		}
	}
	return nil
}

func Opaque_Message_getType() {}

func Spec_Proto_getDeclaredType(p *Proto, name string) any {
	for i := 0; i < len(p.Messages); i++ {
		if v := p.Messages[i].getType(name); v != nil {
			return v
		}
	}
	for i := 0; i < len(p.Enums); i++ {
		if p.Enums[i].Name == name {
			return p.Enums[i]
		}
	}
	return nil
}

func Opaque_Proto_getDeclaredType() {}

func Spec_hasPackage(protos []*Proto, name string) bool {
	for i := 0; i < len(protos); i++ {
		if protos[i].Package == name || hasPathPrefix(protos[i].Package, name) {
			return true
		}
	}
	return false
}

func Spec_findType(protos []*Proto, fullname string) (any, *Proto) {
	for i := 0; i < len(protos); i++ {
		name, ok := fullname, true
		if pkg := protos[i].Package; pkg != "" {
			name, ok = trimPathPrefix(fullname, pkg)
		}
		if ok {
			if v := protos[i].getDeclaredType(name); v != nil {
				return v, protos[i]
			}
		}
	}
	return nil, nil
}

func Opaque_findType()   {}
func Opaque_hasPackage() {}

func Opaque_Directives_Has()           {}
func Opaque_Directives_IsSet()         {}
func Opaque_Options_Get()              {}
func Opaque_Field_genNoPointer()       {}
func Opaque_Field_isRequired()         {}
func Opaque_Field_IsPointer()          {}
func Opaque_Field_GoTypeName()         {}
func Opaque_GoCodeGen_FieldStructTag() {}
func Opaque_Type_GoName()              {}
func Opaque_Type_EncodingType()        {}
func Opaque_goTypeName()               {}
func Opaque_reservedRanges_declared()  {}
func Opaque_Enum_genNoPrefix()         {}

// ---- verification (P15) ----

func joined(pkg, name string) string {
	if pkg == "" {
		return name
	}
	return pkg + "." + name
}

func Spec_Message_FullName(m *Message) string {
	if m.Msg != nil {
		return m.Msg.FullName() + "." + m.Name
	}
	return joined(m.Proto.Package, m.Name)
}

func Opaque_Message_FullName() {}

func Spec_Enum_FullName(e *Enum) string {
	if e.Msg != nil {
		return e.Msg.FullName() + "." + e.Name
	}
	return joined(e.Proto.Package, e.Name)
}

func Opaque_Enum_FullName() {}

func Spec_Enum_verify(e *Enum) error {
	bad := 0
	used := map[int32]bool{}
	for i := 0; i < len(e.Fields); i++ {
		v := e.Fields[i].Value
		if e.reserved.declared(v) || used[v] && !e.allowAlias() {
			bad++
		}
		used[v] = true
	}
	if bad > 0 {
		return vc.Err()
	}
	return nil
}

func Opaque_Enum_verify()     {}
func Opaque_Enum_allowAlias() {}

func Spec_Message_verify(m *Message) error {
	bad := 0
	for i := 0; i < len(m.Enums); i++ {
		if m.Enums[i].verify() != nil {
			bad++
		}
	}
	for i := 0; i < len(m.Messages); i++ {
		if m.Messages[i].verify() != nil {
			bad++
		}
	}
	used := map[int32]bool{}
	for i := 0; i < len(m.Fields); i++ {
		n := m.Fields[i].FieldNumber
		if n < 1 || n > 1<<29-1 || 19000 <= n && n <= 19999 || m.reserved.declared(n) || used[n] {
			bad++
		}
		used[n] = true
	}
	if bad > 0 {
		return vc.Err()
	}
	return nil
}

func Opaque_Message_verify() {}

func Spec_Service_verify(s *Service) error { return nil }

func Spec_Proto_verify(p *Proto) error {
	bad := 0
	for i := 0; i < len(p.Enums); i++ {
		if p.Enums[i].verify() != nil {
			bad++
		}
	}
	for i := 0; i < len(p.Messages); i++ {
		if p.Messages[i].verify() != nil {
			bad++
		}
	}
	for i := 0; i < len(p.Services); i++ {
		if p.Services[i].verify() != nil {
			bad++
		}
	}
	if bad > 0 {
		return vc.Err()
	}
	return nil
}

func Spec_Message_searchType(m *Message, name string) (any, bool) {
	first, _, compound := strings.Cut(name, ".")
	for i := 0; i < len(m.Messages); i++ {
		if m.Messages[i].Name == first {
			return m.Messages[i].getType(name), true
		}
	}
	for i := 0; i < len(m.Enums); i++ {
		if m.Enums[i].Name == first {
			if compound { // nothing is declared in an enum
				return nil, true
			}
			return m.Enums[i], true
		}
	}
	return nil, false
}

func Opaque_Message_searchType() {}

// The innermost scope which declares the first part of the name decides:
// the messages around m from the inside, then the package and its parents.
func Spec_Proto_searchType(p *Proto, m *Message, name string) (any, *Proto) {
	for m != nil {
		if v, ok := m.searchType(name); ok {
			return v, nil
		}
		m = m.Msg
	}
	protos := p.visibleProtos()
	first, _, compound := strings.Cut(name, ".")
	scope := p.Package
	for {
		prefix := ""
		if scope != "" {
			prefix = scope + "."
		}
		if compound {
			v, _ := findType(protos, prefix+first)
			if v != nil || hasPackage(protos, prefix+first) {
				return findType(protos, prefix+name)
			}
		} else {
			v, x := findType(protos, prefix+name)
			if v != nil {
				return v, x
			}
		}
		if scope == "" {
			return nil, nil
		}
		i := strings.LastIndexByte(scope, '.')
		if i < 0 {
			i = 0
		}
		scope = scope[:i]
	}
}

func Opaque_Proto_searchType() {}

func Ghost_visibleProtos(p *Proto) []*Proto       { panic("ghost") }
func Model_Proto_visibleProtos(p *Proto) []*Proto { return Ghost_visibleProtos(p) }

// ---- names (P17) ----

func Def_Message_resolveFieldConflicts(m *Message) {
	used := map[string]bool{"Reset": true, "String": true, "ProtoMessage": true, "Marshal": true,
		"Unmarshal": true, "ExtensionRangeArray": true, "ExtensionMap": true, "Descriptor": true}
	if len(m.Oneofs) > 0 {
		used["XXX_OneofWrappers"] = true
	}
	for i := 0; i < len(m.Fields); i++ {
		f := m.Fields[i]
		for used[f.GoName] || used["Get"+f.GoName] {
			f.GoName += "_"
		}
		used[f.GoName] = true
		used["Get"+f.GoName] = true
		if f.Oneof != nil && f == f.Oneof.Fields[0] {
			o := f.Oneof
			for used[o.GoName] || used["Get"+o.GoName] {
				o.GoName += "_"
			}
			used[o.GoName] = true
			used["Get"+o.GoName] = true
		}
	}
}

func Def_Message_resolveOneofTypeConflicts(m *Message) {
	used := map[string]bool{}
	for i := 0; i < len(m.Messages); i++ {
		used[m.Messages[i].GoName] = true
	}
	for i := 0; i < len(m.Enums); i++ {
		used[m.Enums[i].GoName] = true
	}
	for i := 0; i < len(m.Fields); i++ {
		f := m.Fields[i]
		if f.Oneof != nil {
			for used[f.OneofStructName()] {
				f.oneofTypeSuffix += "_"
			}
			used[f.OneofStructName()] = true
		}
	}
}

// Inv_Field: the oneof of a field lists it
func Inv_Field(f *Field) bool { return f.Oneof == nil || len(f.Oneof.Fields) > 0 }

// ---- resolving (P16, P17) ----

// fatals counts the calls of Fatalf, which do not return in the real loader.
var fatals int

func Model_Proto_Fatalf(p *Proto, fm string, aa ...any) { fatals++ }

func user(t *Type) (*Proto, *Message) {
	if t.f != nil {
		return t.f.Msg.Proto, t.f.Msg
	}
	if t.m != nil {
		return t.m.Service.Proto, nil
	}
	return nil, nil
}

func Spec_Type_resolve(t *Type, allowScalar bool) {
	p, m := user(t)
	t.p = nil
	t.typ = nil
	if allowScalar {
		if _, ok := scalar2GoTypes[t.Name]; ok {
			return
		}
	}
	name := strings.TrimLeft(t.Name, ".")
	absolute := name != t.Name
	t.Name = name
	var d any
	var x *Proto
	if absolute {
		d, x = findType(p.visibleProtos(), name)
	} else {
		d, x = p.searchType(m, name)
	}
	t.typ = d
	if d == nil {
		fatals++
		return
	}
	if x != nil && x.GoImport != p.GoImport {
		t.p = x
	}
}

func Def_Enum_resolve(e *Enum) {
	e.GoName = strs.GoCamelCase(strings.TrimPrefix(e.FullName(), e.Proto.Package+"."))
	for _, f := range e.Fields {
		if f.genNoPrefix() {
			f.GoName = strs.GoCamelCase(f.Name)
		} else if e.Msg == nil {
			f.GoName = e.GoName + "_" + f.Name
		} else {
			f.GoName = e.Msg.GoName + "_" + f.Name
		}
	}
}

func Def_Field_resolve(f *Field) {
	f.GoName = strs.GoCamelCase(f.Name)
	f.Type.resolve(true)
}

func Def_Message_resolve(m *Message) {
	m.GoName = strs.GoCamelCase(strings.TrimPrefix(m.FullName(), m.Proto.Package+"."))
	for _, d := range m.Enums {
		d.resolve()
	}
	for _, d := range m.Messages {
		d.resolve()
	}
	for _, d := range m.Fields {
		d.resolve()
	}
	for _, o := range m.Oneofs {
		o.GoName = strs.GoCamelCase(o.Name)
	}
	m.resolveFieldConflicts()
	m.resolveOneofTypeConflicts()
}

func GhostMem_Enum_resolve(e *Enum) {}
func Spec_Enum_resolve(e *Enum)     { GhostMem_Enum_resolve(e) }

func GhostMem_Field_resolve(f *Field) {}
func Spec_Field_resolve(f *Field)     { GhostMem_Field_resolve(f) }

func GhostMem_Message_resolve(m *Message) {}
func Spec_Message_resolve(m *Message)     { GhostMem_Message_resolve(m) }

func GhostMem_Message_resolveFieldConflicts(m *Message) {}
func Spec_Message_resolveFieldConflicts(m *Message)     { GhostMem_Message_resolveFieldConflicts(m) }

func GhostMem_Message_resolveOneofTypeConflicts(m *Message) {}
func Spec_Message_resolveOneofTypeConflicts(m *Message) {
	GhostMem_Message_resolveOneofTypeConflicts(m)
}

func Spec_Proto_resolve(p *Proto) {
	for _, d := range p.Enums {
		d.resolve()
	}
	for _, d := range p.Messages {
		d.resolve()
	}
	for _, d := range p.Services {
		d.resolve()
	}
}

func GhostMem_Service_resolve(s *Service) {}
func Spec_Service_resolve(s *Service)     { GhostMem_Service_resolve(s) }

func Def_Service_resolve(s *Service) {
	s.GoName = strs.GoCamelCase(strings.TrimPrefix(s.Name, s.Proto.Package+"."))
	for _, d := range s.Methods {
		d.resolve()
	}
}

func GhostMem_Method_resolve(r *Method) {}
func Spec_Method_resolve(r *Method)     { GhostMem_Method_resolve(r) }

func Def_Method_resolve(r *Method) {
	r.GoName = strs.GoCamelCase(r.Name)
	r.Request.resolve(false)
	r.Return.resolve(false)
}
