package prutalgen

import "fmt"

// out is the code written so far.
var out string

// F appends a line; what its buffer does is argued in DESIGN.md.
func Model_CodeWriter_F(w *CodeWriter, format string, a ...interface{}) {
	if len(a) == 0 {
		out += format + "\n"
	} else {
		out += fmt.Sprintf(format, a...) + "\n"
	}
}

// imports is what UsePkg was told.
var imports string

func Model_CodeWriter_UsePkg(w *CodeWriter, p, a string) { imports += a + " " + p + "\n" }

func say(parts ...string) {
	for _, p := range parts {
		out += p
	}
	out += "\n"
}

func Def_GoCodeGen_EnumGen(g *GoCodeGen, e *Enum, w *CodeWriter) {
	if e.HeadComment != "" {
		w.F("%s", e.HeadComment)
	}
	w.F("type %s int32"+e.InlineComment, e.GoName)
	w.F("")
	if len(e.Fields) > 0 {
		say("const (")
		for i := 0; i < len(e.Fields); i++ {
			f := e.Fields[i]
			if f.HeadComment != "" {
				if i > 0 {
					say()
				}
				say(f.HeadComment)
			}
			w.F("%s %s = %d %s", f.GoName, e.GoName, f.Value, f.InlineComment)
		}
		say(")")
	}
	if !e.genMapping() {
		return
	}
	say("\n// Enum value maps for ", e.GoName, ".")
	say("var ", e.GoName, "_name = map[int32]string {")
	named := map[int32]bool{}
	for i := 0; i < len(e.Fields); i++ {
		v := e.Fields[i].Value
		if !named[v] {
			named[v] = true
			w.F("%d: %q,", v, e.Fields[i].Name)
		}
	}
	say("}")
	say("")
	say("var ", e.GoName, "_value = map[string]int32 {")
	for i := 0; i < len(e.Fields); i++ {
		w.F("%q: %d,", e.Fields[i].Name, e.Fields[i].Value)
	}
	say("}")
	w.UsePkg("strconv", "")
	say("func (x ", e.GoName, ") String() string {")
	say("s, ok := ", e.GoName, "_name[int32(x)]")
	say("if ok { return s }")
	say("return strconv.Itoa(int(x))")
	say("}")
}

func GhostOut_EnumGen(g *GoCodeGen, e *Enum)                      {}
func Spec_GoCodeGen_EnumGen(g *GoCodeGen, e *Enum, w *CodeWriter) { GhostOut_EnumGen(g, e) }
func GhostOut_nestedEnumsGen(g *GoCodeGen, m *Message)            {}
func Spec_GoCodeGen_nestedEnumsGen(g *GoCodeGen, m *Message, w *CodeWriter) {
	GhostOut_nestedEnumsGen(g, m)
}

func Def_GoCodeGen_nestedEnumsGen(g *GoCodeGen, m *Message, w *CodeWriter) {
	for i := 0; i < len(m.Enums); i++ {
		say()
		g.EnumGen(m.Enums[i], w)
	}
	for i := 0; i < len(m.Messages); i++ {
		g.nestedEnumsGen(m.Messages[i], w)
	}
}

func Spec_GoCodeGen_ProtoGen(g *GoCodeGen, p *Proto, w *CodeWriter) {
	for i := 0; i < len(p.Enums); i++ {
		say()
		g.EnumGen(p.Enums[i], w)
	}
	for i := 0; i < len(p.Messages); i++ {
		g.nestedEnumsGen(p.Messages[i], w)
	}
	for i := 0; i < len(p.Messages); i++ {
		say()
		g.MessageGen(p.Messages[i], w)
	}
}

func getter(m *Message, f *Field) {
	t := f.GoTypeName()
	get := t
	if !f.IsMessage() && t[0] == '*' {
		get = t[1:]
	}
	say("func (x *", m.GoName, ") Get", f.GoName, "() ", get, " {")
	if !f.IsMessage() && t[0] == '*' {
		say("if x != nil && x.", f.GoName, " != nil { return *x.", f.GoName, " }")
	} else {
		say("if x != nil { return x.", f.GoName, " }")
	}
	say("return ", f.GoZero())
	say("}")
}

func Def_GoCodeGen_MessageGen(g *GoCodeGen, m *Message, w *CodeWriter) {
	if m.HeadComment != "" {
		say(m.HeadComment)
	}
	say("type ", m.GoName, " struct {")
	declared := map[*Oneof]bool{}
	for i, f := range m.Fields {
		o := f.Oneof
		if o == nil {
			if i > 0 && f.HeadComment != "" {
				say()
			}
			g.FieldGen(f, w)
		} else if !declared[o] {
			say("// Types that are assignable to ", o.FieldName(), ":")
			say("//")
			for _, f := range o.Fields {
				say("//\t*", m.GoName, "_", f.GoName)
			}
			say(o.FieldName(), " ", o.FieldType(), " `protobuf_oneof:\"", o.Name, "\"`")
			declared[o] = true
		}
	}
	if m.genUnknownFields() {
		say("unknownFields []byte `json:\"-\"`")
	}
	say("} ", m.InlineComment)
	say("\nfunc (x *", m.GoName, ") Reset() { *x = ", m.GoName, "{} }")
	if g.Marshaler&MarshalerKitexProtobuf != 0 {
		w.UsePkg("github.com/cloudwego/prutal", "")
		say("\nfunc (x *", m.GoName, ") Marshal(in []byte) ([]byte, error) { return prutal.MarshalAppend(in, x) }")
		say("\nfunc (x *", m.GoName, ") Unmarshal(in []byte) error { return prutal.Unmarshal(in, x) }")
	}
	for o := range declared {
		delete(declared, o)
	}
	if g.Getter {
		gotten := declared
		for _, f := range m.Fields {
			say()
			o := f.Oneof
			if o == nil {
				getter(m, f)
				continue
			}
			if !gotten[o] {
				say("func (x *", m.GoName, ") Get", o.FieldName(), "() ", o.FieldType(), " {")
				say("if x != nil { return x.", o.FieldName(), " }")
				say("return nil")
				say("}")
			}
			gotten[o] = true
			say("func (x *", m.GoName, ") Get", f.GoName, "() ", f.GoTypeName(), " {")
			say("if p, ok := x.Get", o.FieldName(), "().(*", f.OneofStructName(), "); ok {")
			say("return p.", f.GoName)
			say("}")
			say("return ", f.GoZero())
			say("}")
		}
	}
	if len(m.Oneofs) > 0 {
		say("// XXX_OneofWrappers is for the internal use of the prutal package.")
		say("func (*", m.GoName, ") XXX_OneofWrappers() []interface{} {")
		say("return []interface{}{")
		for _, o := range m.Oneofs {
			for _, f := range o.Fields {
				say("(*", f.OneofStructName(), ")(nil),")
			}
		}
		say("}}")
	}
	for _, o := range m.Oneofs {
		say()
		g.OneofGen(o, w)
	}
	for _, x := range m.Messages {
		say()
		g.MessageGen(x, w)
	}
}

func GhostOut_OneofGen(g *GoCodeGen, o *Oneof)     {}
func GhostOut_MessageGen(g *GoCodeGen, m *Message) {}

func Spec_GoCodeGen_OneofGen(g *GoCodeGen, o *Oneof, w *CodeWriter) { GhostOut_OneofGen(g, o) }
func Spec_GoCodeGen_MessageGen(g *GoCodeGen, m *Message, w *CodeWriter) {
	GhostOut_MessageGen(g, m)
}

// Assumes_GoCodeGen_FieldGen: code is generated for files which resolve accepted.
func Assumes_GoCodeGen_FieldGen(g *GoCodeGen, f *Field, w *CodeWriter) bool {
	return Requires_GoCodeGen_FieldStructTag(g, f)
}

func GhostOut_GoCodeGen_FieldGen(g *GoCodeGen, f *Field) {}
func Spec_GoCodeGen_FieldGen(g *GoCodeGen, f *Field, w *CodeWriter) {
	GhostOut_GoCodeGen_FieldGen(g, f)
}

func useImport(t *Type, w *CodeWriter) {
	if t.p != nil {
		w.UsePkg(t.GoImport(), t.goPkgName())
	}
}

func Def_GoCodeGen_FieldGen(g *GoCodeGen, f *Field, w *CodeWriter) {
	if f.HeadComment != "" {
		say(f.HeadComment)
	}
	w.F("%s %s `%s` %s", f.GoName, f.GoTypeName(), g.FieldStructTag(f), f.InlineComment)
	useImport(f.Type, w)
	if f.Key != nil {
		useImport(f.Key, w)
	}
}

func Def_GoCodeGen_OneofGen(g *GoCodeGen, o *Oneof, w *CodeWriter) {
	iface := o.FieldType()
	say("type ", iface, " interface {")
	say(iface, "()")
	say("}")
	for _, f := range o.Fields {
		wrapper := f.OneofStructName()
		say()
		say("type ", wrapper, " struct {")
		g.FieldGen(f, w)
		say("}")
		say()
		say("func (*", wrapper, ") ", iface, "() {}")
	}
}
