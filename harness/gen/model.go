//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"
)

type fileM struct {
	name, syntax, pkg, goImport, goPkg string
	repEnc, presence                   string // file-level features
	unrecAll, prefixAll                string
	dirs                               []string
	imports                            []*importM
	msgs                               []*msgM
	enums                              []*enumM
	svcs                               []*svcM
	strOpts                            []*strOpt
}

type strOpt struct{ name, lit, val string }

type importM struct {
	f      *fileM
	public bool
}

type msgM struct {
	name      string
	parent    *msgM
	file      *fileM
	fields    []*fieldM
	oneofs    []*oneofM
	msgs      []*msgM
	enums     []*enumM
	dirs      []string
	unrec     string
	reserved  []rangeM
	deepTrick bool
}

type rangeM struct {
	from, to int64
	max      bool
	form     int
}

type oneofM struct {
	name   string
	msg    *msgM
	fields []*fieldM
}

type fieldM struct {
	name     string
	label    string // "", optional, required, repeated
	key      string // map key
	typ      typM
	num      int64
	numText  string
	packed   string // "", true, false
	repEnc   string
	presence string
	nullable string
	dirs     []string
	inline   bool // directive in an inline comment
	oneof    *oneofM
	msg      *msgM
	strOpt   *strOpt
}

type typM struct {
	scalar string
	decl   interface{} // *msgM, *enumM or nil (unresolvable)
	ref    string      // text
}

type enumM struct {
	name       string
	parent     *msgM
	file       *fileM
	vals       []*valM
	alias      string
	noMap      bool
	noPrefix   bool
	prefixOpt  string
	reserved   []rangeM
	headIndent string
}

type valM struct {
	name string
	v    int64
	text string
}

type svcM struct {
	name string
	rpcs []*rpcM
}

type rpcM struct {
	name     string
	req, ret typM
}

func (m *msgM) rel() string {
	if m.parent != nil {
		return m.parent.rel() + "." + m.name
	}
	return m.name
}

func (e *enumM) rel() string {
	if e.parent != nil {
		return e.parent.rel() + "." + e.name
	}
	return e.name
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

func fullName(d interface{}) string {
	switch x := d.(type) {
	case *msgM:
		return join(x.file.pkg, x.rel())
	case *enumM:
		return join(x.file.pkg, x.rel())
	}
	return ""
}

func declFile(d interface{}) *fileM {
	switch x := d.(type) {
	case *msgM:
		return x.file
	case *enumM:
		return x.file
	}
	return nil
}

func goName(d interface{}) string {
	switch x := d.(type) {
	case *msgM:
		return camel(x.rel())
	case *enumM:
		return camel(x.rel())
	}
	return ""
}

// camel is the protoc-gen-go rule: words start after '_', '.' and at digits;
// an underscore is dropped when a lower case letter follows, which becomes upper case.
func camel(s string) string {
	var b strings.Builder
	up := true // the next lower case letter starts a word
	for i := 0; i < len(s); i++ {
		c := s[i]
		nextLower := i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z'
		switch {
		case c == '.':
			if !nextLower {
				b.WriteByte('_')
			}
			up = true
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b.WriteByte('X')
			up = true
		case c == '_':
			if !nextLower {
				b.WriteByte('_')
			}
			up = true
		case c >= '0' && c <= '9':
			b.WriteByte(c)
			up = true
		case c >= 'a' && c <= 'z' && up:
			b.WriteByte(c - 'a' + 'A')
			up = false
		default:
			b.WriteByte(c)
			up = false
		}
	}
	return b.String()
}

func (f *fileM) allMsgs() (r []*msgM) {
	var walk func(ms []*msgM)
	walk = func(ms []*msgM) {
		for _, m := range ms {
			r = append(r, m)
			walk(m.msgs)
		}
	}
	walk(f.msgs)
	return
}

func (f *fileM) allEnums() (r []*enumM) {
	r = append(r, f.enums...)
	for _, m := range f.allMsgs() {
		r = append(r, m.enums...)
	}
	return
}

// visible lists the files whose declarations f may use.
func (f *fileM) visible() []*fileM {
	r := []*fileM{f}
	seen := map[*fileM]bool{f: true}
	var add func(i *importM)
	add = func(i *importM) {
		if !seen[i.f] {
			seen[i.f] = true
			r = append(r, i.f)
		}
	}
	for _, i := range f.imports {
		add(i)
	}
	for changed := true; changed; {
		changed = false
		for _, x := range r[1:] {
			for _, i := range x.imports {
				if i.public && !seen[i.f] {
					add(i)
					changed = true
				}
			}
		}
	}
	return r
}

type pkgSym struct{}

func (f *fileM) symbols() map[string]interface{} {
	s := map[string]interface{}{}
	for _, x := range f.visible() {
		p := x.pkg
		for p != "" {
			if s[p] == nil {
				s[p] = pkgSym{}
			}
			i := strings.LastIndexByte(p, '.')
			if i < 0 {
				break
			}
			p = p[:i]
		}
	}
	for _, x := range f.visible() {
		for _, m := range x.allMsgs() {
			s[fullName(m)] = m
		}
		for _, e := range x.allEnums() {
			s[fullName(e)] = e
		}
	}
	return s
}

// resolve is protobuf's scoping: the innermost scope in which the first part of the name is declared decides.
func (f *fileM) resolve(scope string, ref string) interface{} {
	s := f.symbols()
	typ := func(d interface{}) interface{} {
		if _, ok := d.(pkgSym); ok || d == nil {
			return nil
		}
		return d
	}
	if strings.HasPrefix(ref, ".") {
		return typ(s[ref[1:]])
	}
	first, _, compound := strings.Cut(ref, ".")
	for {
		if compound {
			if s[join(scope, first)] != nil {
				return typ(s[join(scope, ref)])
			}
		} else if d := typ(s[join(scope, ref)]); d != nil {
			return d
		}
		if scope == "" {
			return nil
		}
		i := strings.LastIndexByte(scope, '.')
		if i < 0 {
			i = 0
		}
		scope = scope[:i]
	}
}

// ---- text ----

type printer struct {
	strings.Builder
	ind string
}

func (p *printer) line(f string, a ...interface{}) { fmt.Fprintf(p, p.ind+f+"\n", a...) }

func (f *fileM) text() string {
	p := &printer{}
	if len(f.dirs) > 0 {
		p.line("//prutalgen:%s", strings.Join(f.dirs, ", "))
	}
	switch f.syntax {
	case "2023":
		p.line(`edition = "2023";`)
	case "":
		// proto2 by default
	default:
		p.line(`syntax = "%s";`, f.syntax)
	}
	if f.pkg != "" {
		p.line("package %s;", f.pkg)
	}
	for _, i := range f.imports {
		if i.public {
			p.line("import public %q;", i.f.name)
		} else {
			p.line("import %q;", i.f.name)
		}
	}
	if f.goPkg != "" {
		p.line("option go_package = \"%s;%s\";", f.goImport, f.goPkg)
	} else {
		p.line("option go_package = \"%s\";", f.goImport)
	}
	if f.repEnc != "" {
		p.line("option features.repeated_field_encoding = %s;", f.repEnc)
	}
	if f.presence != "" {
		p.line("option features.field_presence = %s;", f.presence)
	}
	if f.unrecAll != "" {
		p.line("option (gogoproto.goproto_unrecognized_all) = %s;", f.unrecAll)
	}
	if f.prefixAll != "" {
		p.line("option (gogoproto.goproto_enum_prefix_all) = %s;", f.prefixAll)
	}
	for _, o := range f.strOpts {
		p.line("option %s = %s;", o.name, o.lit)
	}
	for _, e := range f.enums {
		e.print(p)
	}
	for _, m := range f.msgs {
		m.print(p)
	}
	for _, s := range f.svcs {
		p.line("service %s {", s.name)
		for _, r := range s.rpcs {
			p.line("  rpc %s(%s) returns (%s);", r.name, r.req.ref, r.ret.ref)
		}
		p.line("}")
	}
	return p.String()
}

func ranges(rs []rangeM) string {
	var ss []string
	num := func(v int64, form int) string {
		switch form {
		case 1:
			return fmt.Sprintf("0x%x", v)
		case 2:
			return fmt.Sprintf("0%o", v)
		}
		return fmt.Sprint(v)
	}
	for _, r := range rs {
		switch {
		case r.max:
			ss = append(ss, num(r.from, r.form)+" to max")
		case r.from == r.to && r.form != 3:
			ss = append(ss, num(r.from, r.form))
		default:
			ss = append(ss, num(r.from, r.form)+" to "+num(r.to, r.form))
		}
	}
	return strings.Join(ss, ", ")
}

func (e *enumM) print(p *printer) {
	var d []string
	if e.noMap {
		d = append(d, "no_enum_mapping")
	}
	if e.noPrefix {
		d = append(d, "no_enum_prefix")
	}
	p.line("")
	if len(d) > 0 {
		p.line("//prutalgen:%s", strings.Join(d, ","))
	}
	p.line("enum %s {", e.name)
	if e.alias != "" {
		p.line("  option allow_alias = %s;", e.alias)
	}
	if e.prefixOpt != "" {
		p.line("  option (gogoproto.goproto_enum_prefix) = %s;", e.prefixOpt)
	}
	for _, v := range e.vals {
		t := v.text
		if t == "" {
			t = fmt.Sprint(v.v)
		}
		p.line("  %s = %s;", v.name, t)
	}
	if len(e.reserved) > 0 {
		p.line("  reserved %s;", ranges(e.reserved))
	}
	p.line("}")
	p.line("")
}

func (m *msgM) print(p *printer) {
	p.line("")
	if len(m.dirs) > 0 {
		p.line("// comment")
		p.line("//prutalgen:%s", strings.Join(m.dirs, ","))
	}
	p.line("message %s {", m.name)
	ind := p.ind
	p.ind += "  "
	if m.unrec != "" {
		p.line("option (gogoproto.goproto_unrecognized) = %s;", m.unrec)
	}
	half := len(m.msgs) / 2
	for _, x := range m.msgs[:half] {
		x.print(p)
	}
	done := map[*oneofM]bool{}
	for _, f := range m.fields {
		if f.oneof != nil {
			if !done[f.oneof] {
				done[f.oneof] = true
				p.line("oneof %s {", f.oneof.name)
				for _, g := range f.oneof.fields {
					p.ind += "  "
					g.print(p)
					p.ind = ind + "  "
				}
				p.line("}")
			}
			continue
		}
		f.print(p)
	}
	for _, e := range m.enums {
		e.print(p)
	}
	for _, x := range m.msgs[half:] {
		x.print(p)
	}
	if len(m.reserved) > 0 {
		k := len(m.reserved) / 2
		if k > 0 {
			p.line("reserved %s;", ranges(m.reserved[:k]))
		}
		p.line("reserved %s;", ranges(m.reserved[k:]))
	}
	p.ind = ind
	p.line("}")
	p.line("")
}

func (f *fieldM) print(p *printer) {
	var o []string
	if f.packed != "" {
		o = append(o, "packed = "+f.packed)
	}
	if f.repEnc != "" {
		o = append(o, "features.repeated_field_encoding = "+f.repEnc)
	}
	if f.presence != "" {
		o = append(o, "features.field_presence = "+f.presence)
	}
	if f.nullable != "" {
		o = append(o, "(gogoproto.nullable) = "+f.nullable)
	}
	if f.strOpt != nil {
		o = append(o, f.strOpt.name+" = "+f.strOpt.lit)
	}
	opts := ""
	if len(o) > 0 {
		opts = " [" + strings.Join(o, ", ") + "]"
	}
	t := f.typ.ref
	if f.key != "" {
		t = fmt.Sprintf("map<%s, %s>", f.key, t)
	}
	if f.label != "" {
		t = f.label + " " + t
	}
	num := f.numText
	if num == "" {
		num = fmt.Sprint(f.num)
	}
	inl := ""
	if len(f.dirs) > 0 {
		if f.inline {
			inl = " //prutalgen:" + strings.Join(f.dirs, ",")
		} else {
			p.line("//prutalgen:%s", strings.Join(f.dirs, ","))
		}
	}
	p.line("%s %s = %s%s;%s", t, f.name, num, opts, inl)
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
