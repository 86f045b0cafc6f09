//go:build go1.22

package main

import (
	"fmt"
	"go/token"
	"path"
	"strings"
	"unicode"
)

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// ---- numbering ----

func in(rs []rangeM, v int64) bool {
	for _, r := range rs {
		if v >= r.from && (r.max || v <= r.to) {
			return true
		}
	}
	return false
}

// numbering returns why the numbers of the world are invalid, or "".
func (g *gen) numbering() string {
	for _, f := range g.files {
		for _, m := range f.allMsgs() {
			seen := map[int64]bool{}
			for _, x := range m.fields {
				n := x.num
				switch {
				case n < 1 || n > maxNum:
					return fmt.Sprintf("%s.%s = %d is out of range", m.rel(), x.name, n)
				case n >= 19000 && n <= 19999:
					return fmt.Sprintf("%s.%s = %d is reserved by protobuf", m.rel(), x.name, n)
				case in(m.reserved, n):
					return fmt.Sprintf("%s.%s = %d is reserved", m.rel(), x.name, n)
				case seen[n]:
					return fmt.Sprintf("%s.%s = %d is used twice", m.rel(), x.name, n)
				}
				seen[n] = true
			}
		}
		for _, e := range f.allEnums() {
			seen := map[int64]bool{}
			for _, v := range e.vals {
				switch {
				case v.v < -1<<31 || v.v > 1<<31-1:
					return fmt.Sprintf("%s.%s = %d is out of range", e.rel(), v.name, v.v)
				case in(e.reserved, v.v):
					return fmt.Sprintf("%s.%s = %d is reserved", e.rel(), v.name, v.v)
				case seen[v.v] && e.alias != "true":
					return fmt.Sprintf("%s.%s = %d is used twice", e.rel(), v.name, v.v)
				}
				seen[v.v] = true
			}
		}
	}
	return ""
}

// unresolved returns a reference which names nothing, or "".
func (g *gen) unresolved() string {
	for _, f := range g.files {
		for _, m := range f.allMsgs() {
			for _, x := range m.fields {
				if x.typ.scalar == "" && x.typ.decl == nil {
					return m.rel() + "." + x.name + ": " + x.typ.ref
				}
			}
		}
	}
	return ""
}

// ---- names ----

type nameSet struct {
	field map[*fieldM]string
	oneof map[*oneofM]string
	wrap  map[*fieldM]string
}

// names follows protoc-gen-go: each field in order, and a oneof with its first field, gets its
// camel case name followed by as many underscores as it takes to be free.
func (m *msgM) names() *nameSet {
	used := map[string]bool{}
	for _, s := range []string{"Reset", "String", "ProtoMessage", "Marshal", "Unmarshal", "ExtensionRangeArray", "ExtensionMap", "Descriptor"} {
		used[s] = true
	}
	if len(m.oneofs) > 0 {
		used["XXX_OneofWrappers"] = true
	}
	n := &nameSet{map[*fieldM]string{}, map[*oneofM]string{}, map[*fieldM]string{}}
	free := func(s string) string {
		for used[s] || used["Get"+s] {
			s += "_"
		}
		used[s], used["Get"+s] = true, true
		return s
	}
	// the fields of a oneof stand where the oneof is declared
	for _, f := range m.ordered() {
		n.field[f] = free(camel(f.name))
		if f.oneof != nil && f.oneof.fields[0] == f {
			n.oneof[f.oneof] = free(camel(f.oneof.name))
		}
	}
	taken := map[string]bool{}
	for _, x := range m.msgs {
		taken[goName(x)] = true
	}
	for _, x := range m.enums {
		taken[goName(x)] = true
	}
	for _, f := range m.ordered() {
		if f.oneof == nil {
			continue
		}
		s := goName(m) + "_" + n.field[f]
		for taken[s] {
			s += "_"
		}
		taken[s] = true
		n.wrap[f] = s
	}
	return n
}

// ordered lists the fields in the order of the text.
func (m *msgM) ordered() (r []*fieldM) {
	done := map[*oneofM]bool{}
	for _, f := range m.fields {
		if f.oneof == nil {
			r = append(r, f)
		} else if !done[f.oneof] {
			done[f.oneof] = true
			r = append(r, f.oneof.fields...)
		}
	}
	return
}

func (e *enumM) noPrefixGen() bool {
	if e.noPrefix || contains(e.file.dirs, "no_enum_prefix") {
		return true
	}
	if e.prefixOpt != "" {
		return e.prefixOpt == "false"
	}
	return e.file.prefixAll == "false"
}

func (e *enumM) mapping() bool { return !e.noMap && !contains(e.file.dirs, "no_enum_mapping") }

func (e *enumM) valName(v *valM) string {
	switch {
	case e.noPrefixGen():
		return camel(v.name)
	case e.parent != nil:
		return goName(e.parent) + "_" + v.name
	}
	return goName(e) + "_" + v.name
}

// unknowns reports whether the message keeps unknown fields.
func (m *msgM) unknowns() bool {
	for _, dd := range [][]string{m.dirs, m.file.dirs} {
		for _, d := range dd {
			if d == "unknown_fields" {
				return true
			}
			if d == "no_unknown_fields" {
				return false
			}
		}
	}
	if m.unrec != "" {
		return m.unrec == "true"
	}
	return m.file.unrecAll == "true"
}

// clashes reports whether package level names of one Go package collide across messages,
// which the generator leaves to the author of the files.
func (g *gen) clashes() string {
	all := map[string]map[string]string{}
	bad := ""
	add := func(f *fileM, name, who string) {
		if all[f.goImport] == nil {
			all[f.goImport] = map[string]string{}
		}
		if o, ok := all[f.goImport][name]; ok {
			bad = name + ": " + o + ", " + who
		}
		all[f.goImport][name] = who
	}
	for _, f := range g.files {
		for _, m := range f.allMsgs() {
			add(f, goName(m), "message "+m.rel())
			n := m.names()
			for _, o := range m.oneofs {
				add(f, "is"+goName(m)+"_"+n.oneof[o], "oneof")
				for _, x := range o.fields {
					add(f, n.wrap[x], "wrapper")
				}
			}
		}
		for _, e := range f.allEnums() {
			add(f, goName(e), "enum "+e.rel())
			for _, v := range e.vals {
				add(f, e.valName(v), "value")
			}
			if e.mapping() {
				add(f, goName(e)+"_name", "map")
				add(f, goName(e)+"_value", "map")
			}
		}
	}
	return bad
}

func pkgNameOf(f *fileM) string {
	s := f.goPkg
	if s == "" {
		s = path.Base(f.goImport)
	}
	s = strings.Map(func(r rune) rune {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			return r
		}
		return '_'
	}, s)
	if r := rune(s[0]); token.Lookup(s).IsKeyword() || !unicode.IsLetter(r) {
		return "_" + s
	}
	return s
}

// ---- tags and types ----

func (t typM) encoding() string {
	switch t.decl.(type) {
	case *msgM:
		return "bytes"
	case *enumM:
		return "varint"
	}
	switch t.scalar {
	case "int32", "int64", "uint32", "uint64", "bool":
		return "varint"
	case "sint32":
		return "zigzag32"
	case "sint64":
		return "zigzag64"
	case "fixed32", "sfixed32", "float":
		return "fixed32"
	case "fixed64", "sfixed64", "double":
		return "fixed64"
	}
	return "bytes"
}

func (t typM) isMsg() bool  { _, ok := t.decl.(*msgM); return ok }
func (t typM) isEnum() bool { _, ok := t.decl.(*enumM); return ok }

func (f *fieldM) isPacked() bool {
	if f.label != "repeated" || f.key != "" || f.typ.isMsg() || f.typ.scalar == "string" || f.typ.scalar == "bytes" {
		return false
	}
	switch f.msg.file.syntax {
	case "", "proto2":
		return f.packed == "true"
	case "proto3":
		return f.packed != "false"
	}
	if f.repEnc != "" {
		return f.repEnc == "PACKED"
	}
	return f.msg.file.repEnc != "EXPANDED"
}

func (f *fieldM) wantTag() (pb, key, val string) {
	enc, label := f.typ.encoding(), "opt"
	if f.key != "" {
		key = typM{scalar: f.key}.encoding() + ",1,opt,name=key"
		val = enc + ",2,opt,name=value"
		enc = "bytes"
	}
	if f.key != "" || f.label == "repeated" {
		label = "rep"
	} else if f.label == "required" || f.presence == "LEGACY_REQUIRED" && f.msg.file.syntax == "2023" {
		label = "req"
	}
	pb = fmt.Sprintf("%s,%d,%s", enc, f.num, label)
	if f.isPacked() {
		pb += ",packed"
	}
	return pb + ",name=" + f.name, key, val
}

func (f *fieldM) noPointer() bool {
	if contains(f.dirs, "no_pointer") || contains(f.msg.dirs, "no_pointer") {
		return true
	}
	return f.nullable == "false"
}

func (t typM) goBase(qual func(*fileM) string) string {
	if t.decl != nil {
		return qual(declFile(t.decl)) + goName(t.decl)
	}
	switch t.scalar {
	case "double":
		return "float64"
	case "float":
		return "float32"
	case "int32", "sint32", "sfixed32":
		return "int32"
	case "int64", "sint64", "sfixed64":
		return "int64"
	case "uint32", "fixed32":
		return "uint32"
	case "uint64", "fixed64":
		return "uint64"
	case "bytes":
		return "[]byte"
	}
	return t.scalar
}

// wantType is the Go type; named types are written by qual.
func (f *fieldM) wantType(qual func(*fileM) string) string {
	base := f.typ.goBase(qual)
	elem := base
	if f.typ.isMsg() && !f.noPointer() {
		elem = "*" + base
	}
	switch {
	case f.key != "":
		return "map[" + typM{scalar: f.key}.goBase(nil) + "]" + elem
	case f.label == "repeated":
		return "[]" + elem
	case f.noPointer() || base == "[]byte":
		return base
	case f.typ.isMsg() || f.label == "optional":
		return "*" + base
	case f.oneof != nil:
		return base
	}
	explicit := false
	switch f.msg.file.syntax {
	case "", "proto2":
		explicit = true
	case "2023":
		p := f.presence
		if p == "" {
			p = f.msg.file.presence
		}
		explicit = p != "IMPLICIT"
	}
	if explicit {
		return "*" + base
	}
	return base
}
