//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

type ctx struct {
	seed, idx  int64
	nontrivial bool
	sample     string
}

var checks = map[string]func(r *rng, c *ctx) error{
	"P13": p13, "P14": p14, "P15": p15, "P16": p16, "P17": p17, "P18": p18,
}

// clean runs a world whose declarations are valid; nil when it is not usable for the check.
func clean(g *gen, c *ctx) (*outcome, error) {
	c.sample = g.text()
	if g.unresolved() != "" || g.numbering() != "" {
		return nil, nil
	}
	o := g.run(true)
	if o.panicv != "" {
		return nil, fmt.Errorf("generator panics: %s\n%s", o.panicv, g.text())
	}
	if o.fatal != "" {
		return o, nil
	}
	return o, nil
}

func worldOf(r *rng, pr profile) *gen {
	g := &gen{rng: r, pr: pr}
	g.world(1 + r.Intn(4))
	return g
}

func fail(g *gen, f string, a ...any) error { return fmt.Errorf(f+"\n"+g.text(), a...) }

// structFields lists the fields of a struct in order.
func structFields(st *ast.StructType) (r []*ast.Field) {
	if st == nil {
		return nil
	}
	for _, f := range st.Fields.List {
		r = append(r, f)
	}
	return
}

// fieldDecls finds the generated struct field of each declared field by its name in the tag.
func fieldDecls(a *ast.File, m *msgM) map[*fieldM]*ast.Field {
	res := map[*fieldM]*ast.Field{}
	n := m.names()
	byName := map[string]*ast.Field{}
	for _, sf := range structFields(structOf(a, goName(m))) {
		if nm, ok := tagName(tagOf(sf)); ok {
			byName[nm] = sf
		}
	}
	for _, f := range m.ordered() {
		if f.oneof == nil {
			res[f] = byName[f.name]
			continue
		}
		for _, sf := range structFields(structOf(a, n.wrap[f])) {
			res[f] = sf
		}
	}
	return res
}

func tagName(tag string) (string, bool) {
	pb := reflect.StructTag(tag).Get("protobuf")
	for _, p := range strings.Split(pb, ",") {
		if s, ok := strings.CutPrefix(p, "name="); ok {
			return s, true
		}
	}
	return "", false
}

// P13: tags
func p13(r *rng, c *ctx) error {
	g := worldOf(r, profile{})
	o, err := clean(g, c)
	if err != nil || o == nil || o.fatal != "" {
		return err
	}
	w := g.check(o)
	for _, f := range g.files {
		a := w.asts[f]
		if a == nil {
			continue
		}
		for _, m := range f.allMsgs() {
			for fd, sf := range fieldDecls(a, m) {
				if sf == nil {
					continue // P18
				}
				c.nontrivial = true
				pb, key, val := fd.wantTag()
				t := reflect.StructTag(tagOf(sf))
				if got := t.Get("protobuf"); got != pb {
					return fail(g, "%s.%s: tag is %q, the declaration calls for %q", m.rel(), fd.name, got, pb)
				}
				if gk, gv := t.Get("protobuf_key"), t.Get("protobuf_val"); gk != key || gv != val {
					return fail(g, "%s.%s: map tags are %q %q, want %q %q", m.rel(), fd.name, gk, gv, key, val)
				}
			}
			st := structOf(a, goName(m))
			i := 0
			for _, sf := range structFields(st) {
				if on, ok := reflect.StructTag(tagOf(sf)).Lookup("protobuf_oneof"); ok {
					found := false
					for _, of := range m.oneofs {
						found = found || of.name == on
					}
					if !found {
						return fail(g, "%s: oneof tag %q", m.rel(), on)
					}
					i++
				}
			}
			if st != nil && i != len(m.oneofs) {
				return fail(g, "%s: %d oneof tags for %d oneofs", m.rel(), i, len(m.oneofs))
			}
		}
	}
	if g.clashes() == "" {
		keep(g, o, w)
	}
	return nil
}

func typeText(e ast.Expr) string { return types.ExprString(e) }

// shape hides which named type is used.
func shape(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return "*" + shape(x.X)
	case *ast.ArrayType:
		return "[]" + shape(x.Elt)
	case *ast.MapType:
		return "map[" + shape(x.Key) + "]" + shape(x.Value)
	case *ast.SelectorExpr:
		return "N"
	case *ast.Ident:
		if types.Universe.Lookup(x.Name) != nil {
			return x.Name
		}
		return "N"
	}
	return types.ExprString(e)
}

func wantShape(f *fieldM) string {
	// named types all become N
	s := f.wantType(func(*fileM) string { return "\x00" })
	if f.typ.decl != nil {
		s = strings.ReplaceAll(s, "\x00"+goName(f.typ.decl), "N")
	}
	return s
}

// P14: Go types, presence and getters
func p14(r *rng, c *ctx) error {
	g := worldOf(r, profile{})
	o, err := clean(g, c)
	if err != nil || o == nil || o.fatal != "" {
		return err
	}
	w := g.check(o)
	for _, f := range g.files {
		a := w.asts[f]
		if a == nil {
			continue
		}
		for _, m := range f.allMsgs() {
			for fd, sf := range fieldDecls(a, m) {
				if sf == nil {
					continue
				}
				c.nontrivial = true
				if got, want := shape(sf.Type), wantShape(fd); got != want {
					return fail(g, "%s.%s: Go type %s has shape %s, the declaration calls for %s", m.rel(), fd.name, typeText(sf.Type), got, want)
				}
			}
		}
	}
	if len(w.errs) == 0 && g.clashes() == "" {
		if err := getters(g, w); err != nil {
			return err
		}
		keep(g, o, w)
	}
	return nil
}

// getters checks that every field has a getter with the type of the field without the pointer of presence.
func getters(g *gen, w *goWorld) error {
	for _, f := range g.files {
		pkg := w.pkgs[f.goImport]
		if pkg == nil {
			continue
		}
		for _, m := range f.allMsgs() {
			tn, _ := pkg.Scope().Lookup(goName(m)).(*types.TypeName)
			if tn == nil {
				continue
			}
			n := m.names()
			ms := types.NewMethodSet(types.NewPointer(tn.Type()))
			for _, fd := range m.fields {
				sel := ms.Lookup(pkg, "Get"+n.field[fd])
				if sel == nil {
					return fail(g, "%s has no getter for %s", m.rel(), fd.name)
				}
				sig := sel.Type().(*types.Signature)
				if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
					return fail(g, "%s: getter of %s is %s", m.rel(), fd.name, sig)
				}
				want := fd.wantType(func(x *fileM) string { return x.goImport + "." })
				if !fd.typ.isMsg() || fd.label == "repeated" || fd.key != "" {
					want = strings.TrimPrefix(want, "*")
				}
				got := types.TypeString(sig.Results().At(0).Type(), nil)
				if got != want {
					return fail(g, "%s: getter of %s returns %s, want %s", m.rel(), fd.name, got, want)
				}
			}
		}
	}
	return nil
}

// P15: numbering
func p15(r *rng, c *ctx) error {
	g := &gen{rng: r}
	g.world(1 + r.Intn(2))
	if g.unresolved() != "" {
		return nil
	}
	for k := r.Intn(4); k > 0; k-- {
		g.disturb()
	}
	c.sample = g.text()
	c.nontrivial = true
	want := g.numbering()
	o := g.run(true)
	if o.panicv != "" {
		return fail(g, "generator panics: %s", o.panicv)
	}
	if want != "" && o.fatal == "" {
		return fail(g, "accepted although %s", want)
	}
	if want == "" && o.fatal != "" {
		return fail(g, "rejected although the numbering is valid: %s", o.fatal)
	}
	return nil
}

// disturb adds reserved ranges and changes numbers, near or over a limit.
func (g *gen) disturb() {
	f := g.files[g.Intn(len(g.files))]
	ms, es := f.allMsgs(), f.allEnums()
	near := func(v int64) int64 { return v + int64(g.Intn(3)) - 1 }
	rg := func(v int64, max int64) (r rangeM) {
		r.form = g.Intn(4)
		a, b := near(v), near(v)
		switch g.Intn(5) {
		case 0:
			b = a + int64(g.Intn(10))
		case 1:
			a = b - int64(g.Intn(10))
		case 2:
			r.max = true
		}
		if a > b {
			a, b = b, a
		}
		clip := func(x int64) int64 {
			if x < 1 && max == maxNum {
				x = 1
			}
			if x < 0 {
				x = 0
			}
			if x > max {
				x = max
			}
			return x
		}
		r.from, r.to = clip(a), clip(b)
		return
	}
	if len(es) > 0 && g.p(1, 3) {
		e := es[g.Intn(len(es))]
		v := e.vals[g.Intn(len(e.vals))]
		switch g.Intn(3) {
		case 0:
			x := v.v
			if x < 0 {
				x = int64(g.Intn(30))
			}
			e.reserved = append(e.reserved, rg(x, 1<<31-1))
		case 1:
			if g.p(1, 2) {
				e.alias = g.pick("", "true", "false")
			}
			v.v = e.vals[g.Intn(len(e.vals))].v
			v.text = ""
		default:
			v.v = []int64{-1 << 31, 1<<31 - 1, 1 << 31, -1<<31 - 1, 19000, 19500, 19999, 1 << 29, 7}[g.Intn(9)]
			v.text = ""
		}
		return
	}
	if len(ms) == 0 {
		return
	}
	m := ms[g.Intn(len(ms))]
	if len(m.fields) == 0 {
		return
	}
	x := m.fields[g.Intn(len(m.fields))]
	switch g.Intn(4) {
	case 0, 1:
		m.reserved = append(m.reserved, rg(x.num, maxNum))
	case 2:
		x.num = m.fields[g.Intn(len(m.fields))].num
		x.numText = g.numText(x.num)
	default:
		x.num = []int64{0, 1, maxNum, maxNum + 1, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 18999, 19000, 19001, 19999, 20000, near(19000), near(19999), 19000 + int64(g.Intn(1000))}[g.Intn(16)]
		x.numText = ""
	}
}

// eachMsg pairs the declarations with what the loader made of them.
func eachMsg(o *outcome, f *fileM, do func(m *msgM, x *prutalgen.Message) error) error {
	p := o.byFile[f]
	if p == nil {
		return nil
	}
	var walk func(ms []*msgM, xs []*prutalgen.Message) error
	walk = func(ms []*msgM, xs []*prutalgen.Message) error {
		for _, m := range ms {
			for _, x := range xs {
				if x.Name == m.name {
					if err := do(m, x); err != nil {
						return err
					}
					if err := walk(m.msgs, x.Messages); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}
	return walk(f.msgs, p.Messages)
}

func sameDecl(t *prutalgen.Type, d interface{}) bool {
	file := declFile(d).name
	if m := t.Message(); m != nil {
		_, ok := d.(*msgM)
		return ok && m.FullName() == fullName(d) && filepath.Base(m.Proto.ProtoFile) == file
	}
	if e := t.Enum(); e != nil {
		_, ok := d.(*enumM)
		return ok && e.FullName() == fullName(d) && filepath.Base(e.Proto.ProtoFile) == file
	}
	return false
}

func describe(t *prutalgen.Type) string {
	if m := t.Message(); m != nil {
		return "message " + m.FullName()
	}
	if m := t.Enum(); m != nil {
		return "enum " + m.FullName()
	}
	return "scalar " + t.Name
}

// P16: resolution
func p16(r *rng, c *ctx) error {
	g := worldOf(r, profile{scopes: true})
	c.sample = g.text()
	if g.numbering() != "" {
		return nil
	}
	bad := g.unresolved()
	o := g.run(true)
	if o.panicv != "" {
		return fail(g, "generator panics: %s", o.panicv)
	}
	if bad != "" {
		c.nontrivial = true
		if o.fatal == "" {
			return fail(g, "accepted although a type name resolves to nothing: %s", bad)
		}
		return nil
	}
	if o.fatal != "" {
		return fail(g, "rejected although all type names resolve: %s", o.fatal)
	}
	for _, f := range g.files {
		err := eachMsg(o, f, func(m *msgM, x *prutalgen.Message) error {
			for _, fd := range m.fields {
				for _, xf := range x.Fields {
					if xf.Name != fd.name {
						continue
					}
					if fd.typ.scalar != "" {
						if xf.Type.IsMessage() || xf.Type.IsEnum() || xf.Type.Name != fd.typ.scalar {
							return fail(g, "%s.%s: %s resolves to %s", m.rel(), fd.name, fd.typ.ref, describe(xf.Type))
						}
						continue
					}
					c.nontrivial = true
					if !sameDecl(xf.Type, fd.typ.decl) {
						return fail(g, "%s.%s: %q resolves to %s, by the scoping rules it is %s", m.rel(), fd.name, fd.typ.ref, describe(xf.Type), fullName(fd.typ.decl))
					}
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
		p := o.byFile[f]
		if p == nil {
			continue
		}
		for _, s := range f.svcs {
			for _, xs := range p.Services {
				for i, rp := range s.rpcs {
					if xs.Name != s.name || i >= len(xs.Methods) {
						continue
					}
					for k, t := range []typM{rp.req, rp.ret} {
						xt := []*prutalgen.Type{xs.Methods[i].Request, xs.Methods[i].Return}[k]
						if !sameDecl(xt, t.decl) {
							return fail(g, "rpc %s: %q resolves to %s, by the scoping rules it is %s", rp.name, t.ref, describe(xt), fullName(t.decl))
						}
						if xt.GoImport() != declFile(t.decl).goImport || xt.IsExternalType() != (declFile(t.decl).goImport != f.goImport) {
							return fail(g, "rpc %s: %q is referenced through package %q", rp.name, t.ref, xt.GoImport())
						}
					}
				}
			}
		}
	}
	// the Go code names the declaration through the import of its package
	w := g.check(o)
	if w.cycle || g.clashes() != "" {
		return nil
	}
	for _, e := range w.errs {
		if strings.Contains(e, "invalid recursive type") {
			return nil
		}
	}
	if len(w.errs) > 0 {
		return fail(g, "generated code does not type-check: %s", strings.Join(w.errs, "; "))
	}
	for _, f := range g.files {
		pkg := w.pkgs[f.goImport]
		if pkg == nil {
			continue
		}
		for _, m := range f.allMsgs() {
			n := m.names()
			for _, fd := range m.fields {
				owner, name := goName(m), n.field[fd]
				if fd.oneof != nil {
					owner = n.wrap[fd]
				}
				t := fieldType(pkg, owner, name)
				if t == nil {
					continue
				}
				if got, want := types.TypeString(t, nil), fd.wantType(func(x *fileM) string { return x.goImport + "." }); base(got) != base(want) {
					return fail(g, "%s.%s: generated with Go type %s, want %s", m.rel(), fd.name, got, want)
				}
			}
		}
	}
	return nil
}

func base(s string) string {
	if i := strings.LastIndexByte(s, ']'); i >= 0 && !strings.HasSuffix(s, "]byte") {
		s = s[i+1:]
	}
	return strings.TrimLeft(s, "*")
}

func fieldType(pkg *types.Package, owner, name string) types.Type {
	tn, _ := pkg.Scope().Lookup(owner).(*types.TypeName)
	if tn == nil {
		return nil
	}
	st, _ := tn.Type().Underlying().(*types.Struct)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

// P17: names and string constants
func p17(r *rng, c *ctx) error {
	g := worldOf(r, profile{names: true, strings: r.p(1, 2)})
	o, err := clean(g, c)
	if err != nil || o == nil {
		return err
	}
	if o.fatal != "" {
		return fail(g, "rejected: %s", o.fatal)
	}
	for _, f := range g.files {
		p := o.byFile[f]
		if p == nil {
			continue
		}
		if want := pkgNameOf(f); p.GoPackage != want {
			return fail(g, "%s: Go package %q, want %q", f.name, p.GoPackage, want)
		}
		for _, s := range f.strOpts {
			if v, ok := p.Options.Get(s.name); !ok || v != s.val {
				return fail(g, "option %s = %s has value %q, want %q", s.name, s.lit, v, s.val)
			}
		}
		err := eachMsg(o, f, func(m *msgM, x *prutalgen.Message) error {
			n := m.names()
			if x.GoName != goName(m) {
				return fail(g, "message %s becomes %s, want %s", m.rel(), x.GoName, goName(m))
			}
			for _, fd := range m.fields {
				c.nontrivial = true
				for _, xf := range x.Fields {
					if xf.Name != fd.name {
						continue
					}
					if xf.GoName != n.field[fd] {
						return fail(g, "%s.%s becomes %s, want %s", m.rel(), fd.name, xf.GoName, n.field[fd])
					}
					if fd.oneof != nil {
						if got := xf.OneofStructName(); got != n.wrap[fd] {
							return fail(g, "the wrapper of %s.%s becomes %s, want %s", m.rel(), fd.name, got, n.wrap[fd])
						}
					}
					if s := fd.strOpt; s != nil {
						if v, ok := xf.Options.Get(s.name); !ok || v != s.val {
							return fail(g, "option %s = %s has value %q, want %q", s.name, s.lit, v, s.val)
						}
					}
				}
			}
			for i, of := range m.oneofs {
				if i < len(x.Oneofs) && x.Oneofs[i].Name == of.name && x.Oneofs[i].FieldName() != n.oneof[of] {
					return fail(g, "oneof %s.%s becomes %s, want %s", m.rel(), of.name, x.Oneofs[i].FieldName(), n.oneof[of])
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	// names are unique: the code compiles
	w := g.check(o)
	if !w.cycle && g.clashes() == "" {
		for _, e := range w.errs {
			if strings.Contains(e, "invalid recursive type") {
				return nil
			}
		}
		if len(w.errs) > 0 {
			return fail(g, "generated code does not type-check: %s", strings.Join(w.errs, "; "))
		}
	}
	// the same files give the same code
	o2 := g.run(true)
	for _, f := range g.files {
		if !bytes.Equal(o.src[f], o2.src[f]) {
			return fail(g, "generating %s again gives different code", f.name)
		}
	}
	return nil
}

// P18: completeness
func p18(r *rng, c *ctx) error {
	pr := profile{}
	if r.p(1, 4) {
		pr.names = true
	}
	g := worldOf(r, pr)
	o, err := clean(g, c)
	if err != nil || o == nil {
		return err
	}
	if o.fatal != "" {
		return nil
	}
	// every file once, importers before what they import
	pos := map[*fileM]int{}
	for i, p := range o.protos {
		for _, f := range g.files {
			if filepath.Base(p.ProtoFile) == f.name {
				if _, dup := pos[f]; dup {
					return fail(g, "%s is loaded twice", f.name)
				}
				pos[f] = i
			}
		}
	}
	reach := map[*fileM]bool{}
	var walk func(f *fileM)
	walk = func(f *fileM) {
		if !reach[f] {
			reach[f] = true
			for _, i := range f.imports {
				walk(i.f)
			}
		}
	}
	walk(g.files[0])
	if len(pos) != len(reach) || len(o.protos) != len(reach) {
		return fail(g, "%d files loaded, %d reachable", len(o.protos), len(reach))
	}
	for f := range reach {
		for _, i := range f.imports {
			if pos[f] >= pos[i.f] {
				return fail(g, "%s comes after %s which it imports", f.name, i.f.name)
			}
		}
	}
	w := g.check(o)
	if len(w.errs) > 0 && strings.HasPrefix(w.errs[0], "parse: ") {
		return fail(g, "generated code does not parse: %s", w.errs[0])
	}
	if g.clashes() != "" || w.cycle {
		return nil
	}
	for f := range reach {
		if err := complete(g, w, f); err != nil {
			return err
		}
	}
	c.nontrivial = true
	return nil
}

// topNames counts the declarations of a file.
func topNames(a *ast.File) map[string]int {
	n := map[string]int{}
	for _, d := range a.Decls {
		switch x := d.(type) {
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					n["type "+y.Name.Name]++
				case *ast.ValueSpec:
					for _, id := range y.Names {
						n[x.Tok.String()+" "+id.Name]++
					}
				}
			}
		case *ast.FuncDecl:
			if x.Recv != nil {
				t := x.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				n["func "+types.ExprString(t)+"."+x.Name.Name]++
			}
		}
	}
	return n
}

func complete(g *gen, w *goWorld, f *fileM) error {
	a, pkg := w.asts[f], w.pkgs[f.goImport]
	if a == nil || pkg == nil {
		return fail(g, "%s is not generated", f.name)
	}
	names := topNames(a)
	want := map[string]bool{}
	once := func(k string) error {
		want[k] = true
		if names[k] != 1 {
			return fail(g, "%s: %s is generated %d times", f.name, k, names[k])
		}
		return nil
	}
	for _, m := range f.allMsgs() {
		if err := once("type " + goName(m)); err != nil {
			return err
		}
		if err := once("func " + goName(m) + ".Reset"); err != nil {
			return err
		}
		n := m.names()
		st := structOf(a, goName(m))
		if st == nil {
			return fail(g, "%s is not a struct", goName(m))
		}
		var wantF, gotF []string
		done := map[*oneofM]bool{}
		for _, fd := range m.ordered() {
			if fd.oneof == nil {
				wantF = append(wantF, n.field[fd])
			} else if !done[fd.oneof] {
				done[fd.oneof] = true
				wantF = append(wantF, n.oneof[fd.oneof])
			}
		}
		unk := false
		for _, sf := range st.Fields.List {
			for _, id := range sf.Names {
				if id.Name == "unknownFields" && types.ExprString(sf.Type) == "[]byte" {
					unk = true
					continue
				}
				gotF = append(gotF, id.Name)
			}
		}
		if strings.Join(wantF, " ") != strings.Join(gotF, " ") {
			return fail(g, "%s has fields %v, want %v", goName(m), gotF, wantF)
		}
		if unk != m.unknowns() {
			return fail(g, "%s: keeps unknown fields: %v, want %v", goName(m), unk, m.unknowns())
		}
		var wrappers []string
		for _, of := range m.oneofs {
			iface := "is" + goName(m) + "_" + n.oneof[of]
			if err := once("type " + iface); err != nil {
				return err
			}
			for _, fd := range of.fields {
				ws := n.wrap[fd]
				wrappers = append(wrappers, ws)
				if err := once("type " + ws); err != nil {
					return err
				}
				if err := once("func " + ws + "." + iface); err != nil {
					return err
				}
				sf := structFields(structOf(a, ws))
				if len(sf) != 1 || len(sf[0].Names) != 1 || sf[0].Names[0].Name != n.field[fd] {
					return fail(g, "wrapper %s does not hold the field %s", ws, n.field[fd])
				}
			}
		}
		got := wrapperList(a, goName(m))
		if strings.Join(sorted(got), " ") != strings.Join(sorted(wrappers), " ") {
			return fail(g, "%s registers the oneof wrappers %v, want %v", goName(m), got, wrappers)
		}
	}
	for _, e := range f.allEnums() {
		if err := once("type " + goName(e)); err != nil {
			return err
		}
		for _, v := range e.vals {
			if err := once("const " + e.valName(v)); err != nil {
				return err
			}
			k, _ := pkg.Scope().Lookup(e.valName(v)).(*types.Const)
			if k == nil || k.Type() == nil || types.TypeString(k.Type(), nil) != f.goImport+"."+goName(e) {
				return fail(g, "%s is not a constant of %s", e.valName(v), goName(e))
			}
			if x, ok := constant.Int64Val(k.Val()); !ok || x != v.v {
				return fail(g, "%s = %s, want %d", e.valName(v), k.Val(), v.v)
			}
		}
		if e.mapping() {
			nm, vm := map[string]string{}, map[string]string{}
			for _, v := range e.vals {
				num, s := fmt.Sprint(v.v), strconv.Quote(v.name)
				if nm[num] == "" {
					nm[num] = s
				}
				vm[s] = num
			}
			for name, m := range map[string]map[string]string{goName(e) + "_name": nm, goName(e) + "_value": vm} {
				if err := once("var " + name); err != nil {
					return err
				}
				if got := mapLit(a, name); !reflect.DeepEqual(got, m) {
					return fail(g, "%s is %v, want %v", name, got, m)
				}
			}
			if err := once("func " + goName(e) + ".String"); err != nil {
				return err
			}
		} else if names["var "+goName(e)+"_name"]+names["var "+goName(e)+"_value"] > 0 {
			return fail(g, "%s has maps although they are switched off", goName(e))
		}
	}
	for k := range names {
		if (strings.HasPrefix(k, "type ") || strings.HasPrefix(k, "const ")) && ast.IsExported(strings.Fields(k)[1]) && !want[k] {
			return fail(g, "%s: %s is not declared in the file", f.name, k)
		}
	}
	return nil
}

func sorted(ss []string) []string {
	m := map[string]bool{}
	for _, s := range ss {
		for m[s] {
			s += "+"
		}
		m[s] = true
	}
	return sortedKeys(m)
}

// wrapperList reads the types named in XXX_OneofWrappers.
func wrapperList(a *ast.File, msg string) (r []string) {
	for _, d := range a.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != "XXX_OneofWrappers" || fd.Recv == nil {
			continue
		}
		if strings.TrimPrefix(types.ExprString(fd.Recv.List[0].Type), "*") != msg {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if call, ok := n.(*ast.CallExpr); ok {
				s := types.ExprString(call.Fun)
				r = append(r, strings.Trim(s, "(*)"))
			}
			return true
		})
	}
	return
}

func mapLit(a *ast.File, name string) map[string]string {
	var res map[string]string
	for _, d := range a.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range gd.Specs {
			vs, ok := s.(*ast.ValueSpec)
			if !ok || vs.Names[0].Name != name || len(vs.Values) != 1 {
				continue
			}
			cl, ok := vs.Values[0].(*ast.CompositeLit)
			if !ok {
				continue
			}
			res = map[string]string{}
			for _, e := range cl.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					res[types.ExprString(kv.Key)] = types.ExprString(kv.Value)
				}
			}
		}
	}
	return res
}
