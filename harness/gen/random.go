//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"strings"
)

type rng struct{ *rand.Rand }

func newRng(seed int64) *rng { return &rng{rand.New(rand.NewSource(seed))} }

func (r *rng) p(num, den int) bool { return r.Intn(den) < num }

func (r *rng) pick(ss ...string) string { return ss[r.Intn(len(ss))] }

var scalars = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
var keyScalars = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

const maxNum = 1<<29 - 1

// profile tunes what a generated case emphasises.
type profile struct {
	names   bool // colliding field names
	scopes  bool // shadowed type names, odd references
	numbers bool // reserved ranges and conflicts
	strings bool // string option values
}

type gen struct {
	*rng
	pr    profile
	files []*fileM
	used  map[string]bool // go package-level names are not tracked here
	n     int
}

func (g *gen) num(used map[int64]bool) int64 {
	for {
		var n int64
		switch g.Intn(6) {
		case 0:
			n = []int64{1, 15, 16, 2047, 2048, maxNum, 18999, 20000, 262143, 262144, 33554431, 33554432}[g.Intn(12)]
		case 1:
			n = 1 + g.Int63n(maxNum)
		default:
			n = 1 + int64(g.Intn(40))
		}
		if n >= 19000 && n <= 19999 || used[n] {
			continue
		}
		used[n] = true
		return n
	}
}

func (g *gen) numText(n int64) string {
	switch g.Intn(12) {
	case 0:
		return fmt.Sprintf("0x%x", n)
	case 1:
		return fmt.Sprintf("0%o", n)
	case 2:
		return fmt.Sprintf("0X%X", n)
	}
	return ""
}

var fieldPool = []string{"a", "b", "ab", "a_b", "aB", "a1", "a_1", "_a", "a_", "A", "x__y", "get_a", "getA", "get_get_a", "reset", "Reset", "string", "marshal", "unmarshal", "descriptor", "proto_message", "extension_map", "type", "func", "map", "message", "xxx_oneof_wrappers", "Get", "get_", "unknown_fields", "value_1b", "foo_Bar", "reset_", "a__", "get_a_"}
var calmPool = []string{"id", "name", "user_id", "fooBar", "Value", "x1", "x_2y", "_lead", "trail_", "items", "kind", "created_at", "b64", "http_code", "q", "w", "payload", "list_of", "z9_z"}

func (g *gen) fieldName(used map[string]bool) string {
	for {
		var s string
		if g.pr.names && g.p(4, 5) {
			s = fieldPool[g.Intn(len(fieldPool))]
		} else {
			s = calmPool[g.Intn(len(calmPool))]
		}
		if used[s] {
			s += fmt.Sprintf("%d", g.Intn(40))
		}
		if !used[s] {
			used[s] = true
			return s
		}
	}
}

func (g *gen) msgName(used map[string]bool, top bool) string {
	pool := []string{"M", "Inner", "Foo", "Bar", "X", "Y", "item", "Node", "a_b", "Deep"}
	if g.pr.scopes {
		pool = []string{"A", "B", "C", "p", "q", "Foo", "AB"}
	}
	if g.pr.names && !top {
		pool = []string{"A", "AB", "B", "Reset", "GetA", "A1", "Type", "AB_", "A_", "Foo_Bar"}
	}
	for i := 0; ; i++ {
		s := pool[g.Intn(len(pool))]
		if i > 8 {
			g.n++
			s += fmt.Sprintf("%d", g.n)
		}
		if !used[s] {
			used[s] = true
			return s
		}
	}
}

func (g *gen) enum(f *fileM, parent *msgM, used map[string]bool) *enumM {
	g.n++
	e := &enumM{name: g.pick("E", "Kind", "State", "color") + fmt.Sprint(g.n%7), file: f, parent: parent}
	for used[e.name] {
		g.n++
		e.name = "E" + fmt.Sprint(g.n)
	}
	used[e.name] = true
	n := 1 + g.Intn(5)
	seen := map[int64]bool{}
	for i := 0; i < n; i++ {
		g.n++
		v := &valM{name: fmt.Sprintf("%s_%d", g.pick("V", "VAL", "v_x", "Low"), g.n)}
		switch g.Intn(8) {
		case 0:
			v.v = -int64(g.Intn(20))
		case 1:
			v.v = []int64{-1 << 31, 1<<31 - 1, -1, 19000, 19500}[g.Intn(5)]
		default:
			v.v = int64(g.Intn(10))
		}
		if i == 0 && (f.syntax != "proto2" && f.syntax != "" || g.p(1, 2)) {
			v.v = 0
		}
		if seen[v.v] {
			if g.p(1, 2) && e.alias != "false" {
				e.alias = "true"
			} else {
				continue
			}
		}
		seen[v.v] = true
		if v.v >= 0 {
			v.text = g.numText(v.v)
			if v.v == 0 {
				v.text = ""
			}
		} else if g.p(1, 3) && v.v > -1<<31 {
			v.text = "- " + fmt.Sprint(-v.v)
		}
		e.vals = append(e.vals, v)
	}
	if e.alias == "" && g.p(1, 10) {
		e.alias = "false"
	}
	e.noMap = g.p(1, 8)
	e.noPrefix = g.p(1, 6)
	if g.p(1, 6) {
		e.prefixOpt = g.pick("true", "false")
	}
	return e
}

func (g *gen) msg(f *fileM, parent *msgM, depth int, used map[string]bool) *msgM {
	m := &msgM{name: g.msgName(used, parent == nil), file: f, parent: parent}
	inner := map[string]bool{}
	if depth > 0 {
		for i := g.Intn(4); i > 0; i-- {
			m.msgs = append(m.msgs, g.msg(f, m, depth-1, inner))
		}
	}
	for i := g.Intn(3); i > 0 && g.p(1, 2); i-- {
		m.enums = append(m.enums, g.enum(f, m, inner))
	}
	if g.p(1, 8) {
		m.dirs = append(m.dirs, "no_pointer")
	}
	if g.p(1, 8) {
		m.dirs = append(m.dirs, g.pick("unknown_fields", "no_unknown_fields"))
	}
	if g.p(1, 10) {
		m.dirs = append(m.dirs, g.pick("pointer", "no_pointers", "unknown"))
	}
	if g.p(1, 8) {
		m.unrec = g.pick("true", "false")
	}
	return m
}

// decls lists all declarations f can see.
func decls(f *fileM) (r []interface{}) {
	for _, x := range f.visible() {
		for _, m := range x.allMsgs() {
			r = append(r, m)
		}
		for _, e := range x.allEnums() {
			r = append(r, e)
		}
	}
	return
}

// ref picks how to write a reference to d from the scope; it returns what the text means.
func (g *gen) ref(f *fileM, scope string, d interface{}, odd bool) typM {
	full := fullName(d)
	parts := strings.Split(full, ".")
	var cands []string
	for i := range parts {
		cands = append(cands, strings.Join(parts[i:], "."))
	}
	cands = append(cands, "."+full)
	near := odd && g.p(1, 12) // a name which only looks like a declared one
	for i := 0; i < 12; i++ {
		c := cands[g.Intn(len(cands))]
		if near {
			if j := strings.LastIndexByte(c, '.'); j > 0 && g.p(3, 4) {
				dots := []int{j}
				for k := 1; k < j; k++ {
					if c[k] == '.' {
						dots = append(dots, k)
					}
				}
				k := dots[g.Intn(len(dots))]
				c = c[:k] + g.pick("_", "", "x", "_x", "0") + c[k+1:]
			} else if g.p(1, 2) {
				c += g.pick("_", "x", "0")
			} else if len(c) > 2 && c[0] != '.' && c[len(c)-2] != '.' {
				c = c[:len(c)-1]
			}
		}
		isScalar := false
		for _, s := range scalars {
			if s == c {
				isScalar = true
			}
		}
		if isScalar {
			continue
		}
		got := f.resolve(scope, c)
		if odd || got == d {
			return typM{decl: got, ref: c}
		}
	}
	return typM{decl: d, ref: "." + full}
}

func (g *gen) typ(f *fileM, m *msgM) typM {
	ds := decls(f)
	if g.p(1, 2) || len(ds) == 0 {
		s := scalars[g.Intn(len(scalars))]
		return typM{scalar: s, ref: s}
	}
	d := ds[g.Intn(len(ds))]
	return g.ref(f, fullName(m), d, g.pr.scopes && g.p(1, 3))
}

func (g *gen) fill(m *msgM) {
	f := m.file
	nums := map[int64]bool{}
	names := map[string]bool{}
	n := g.Intn(7)
	if g.pr.names {
		n = 2 + g.Intn(7)
	}
	var of *oneofM
	for i := 0; i < n; i++ {
		x := &fieldM{name: g.fieldName(names), msg: m}
		x.num = g.num(nums)
		x.numText = g.numText(x.num)
		x.typ = g.typ(f, m)
		_, isMsg := x.typ.decl.(*msgM)
		switch {
		case g.p(1, 5):
			if of == nil || g.p(1, 3) {
				of = &oneofM{name: g.fieldName(names), msg: m}
				m.oneofs = append(m.oneofs, of)
			}
			x.oneof = of
			of.fields = append(of.fields, x)
		case g.p(1, 6):
			x.key = keyScalars[g.Intn(len(keyScalars))]
		case g.p(1, 3):
			x.label = "repeated"
		default:
			switch f.syntax {
			case "", "proto2":
				x.label = g.pick("optional", "optional", "required")
			case "proto3":
				x.label = g.pick("", "", "optional")
			}
		}
		_, isEnum := x.typ.decl.(*enumM)
		packable := isEnum || x.typ.scalar != "" && x.typ.scalar != "string" && x.typ.scalar != "bytes"
		if x.label == "repeated" && packable && g.p(1, 2) {
			if f.syntax == "2023" {
				x.repEnc = g.pick("PACKED", "EXPANDED")
			} else {
				x.packed = g.pick("true", "false")
			}
		}
		if f.syntax == "2023" && x.label == "" && x.key == "" && x.oneof == nil && g.p(1, 2) {
			if isMsg {
				x.presence = g.pick("EXPLICIT", "LEGACY_REQUIRED")
			} else {
				x.presence = g.pick("EXPLICIT", "IMPLICIT", "LEGACY_REQUIRED")
			}
		}
		if g.p(1, 8) {
			x.nullable = g.pick("true", "false")
		}
		if g.p(1, 8) {
			x.dirs = append(x.dirs, "no_pointer")
			x.inline = g.p(1, 2)
		} else if g.p(1, 12) {
			x.dirs = append(x.dirs, g.pick("pointer", "no_pointers", "nopointer"))
		}
		if g.pr.strings && g.p(1, 2) {
			x.strOpt = g.str()
		}
		m.fields = append(m.fields, x)
	}
	for _, x := range m.msgs {
		g.fill(x)
	}
}

// str makes a string constant and its value by the protobuf text format.
func (g *gen) str() *strOpt {
	var lit, val strings.Builder
	for k := 1 + g.Intn(3); k > 0; k-- {
		q := byte('"')
		if g.p(1, 2) {
			q = '\''
		}
		lit.WriteByte(q)
		for i := g.Intn(8); i > 0; i-- {
			switch g.Intn(6) {
			case 0:
				e := "abfnrtv\\'\""[g.Intn(10)]
				lit.WriteByte('\\')
				lit.WriteByte(e)
				val.WriteByte(map[byte]byte{'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': '\\', '\'': '\'', '"': '"'}[e])
			case 1:
				v := g.Intn(256)
				fmt.Fprintf(&lit, g.pick(`\x%02x`, `\x%02X`), v)
				val.WriteByte(byte(v))
			case 2:
				v := g.Intn(256)
				fmt.Fprintf(&lit, `\%03o`, v)
				val.WriteByte(byte(v))
			case 3:
				c := []rune("é世\u00ff😀\u007f")[g.Intn(5)]
				lit.WriteRune(c)
				val.WriteRune(c)
			case 4:
				c := byte('"' + '\'' - q)
				lit.WriteByte(c)
				val.WriteByte(c)
			default:
				c := "aZ09 xun;{}/*"[g.Intn(13)]
				lit.WriteByte(c)
				val.WriteByte(c)
			}
		}
		lit.WriteByte(q)
		if k > 1 {
			lit.WriteString(g.pick("", " ", "\t"))
		}
	}
	g.n++
	return &strOpt{name: fmt.Sprintf("(my.opt%d)", g.n), lit: lit.String(), val: val.String()}
}

var pkgPool = []string{"", "p", "p.q", "q", "p.q.A", "a.b", "foo", "foobar", "p.B"}
var goPkgPool = []string{"x.io/a", "x.io/b", "x.io/c/a", "x.io/strconv", "x.io/string", "x.io/foo-bar", "x.io/v2", "x.io/type", "x.io/d/a", "x.io/e/prutal", "x.io/len"}

// world makes a set of files importing each other without cycles, files[0] being the root.
func (g *gen) world(nfiles int) {
	for i := 0; i < nfiles; i++ {
		f := &fileM{name: fmt.Sprintf("f%d.proto", i), syntax: g.pick("proto2", "proto3", "2023", "proto3", "2023", "")}
		f.pkg = pkgPool[g.Intn(len(pkgPool))]
		f.goImport = fmt.Sprintf("%s%d", goPkgPool[g.Intn(len(goPkgPool))], i)
		if g.p(1, 2) {
			f.goImport = fmt.Sprintf("x.io/m%d/%s", i, g.pick("a", "strconv", "string", "foo-bar", "v2", "type", "prutal", "len", "a1"))
		}
		if g.p(1, 3) {
			f.goPkg = g.pick("a", "b", "pkg", "strconv", "a1", "type")
		}
		if f.syntax == "2023" {
			if g.p(1, 2) {
				f.repEnc = g.pick("PACKED", "EXPANDED")
			}
			if g.p(1, 2) {
				f.presence = g.pick("EXPLICIT", "IMPLICIT")
			}
		}
		if g.p(1, 6) {
			f.unrecAll = g.pick("true", "false")
		}
		if g.p(1, 6) {
			f.prefixAll = g.pick("true", "false")
		}
		if g.p(1, 8) {
			f.dirs = append(f.dirs, g.pick("unknown_fields", "no_unknown_fields", "no_enum_prefix", "no_enum_mapping"))
		}
		if g.pr.strings {
			for k := g.Intn(4); k > 0; k-- {
				f.strOpts = append(f.strOpts, g.str())
			}
		}
		g.files = append(g.files, f)
	}
	if nfiles > 1 && g.p(1, 5) { // one Go package made of two files
		i, j := g.Intn(nfiles), g.Intn(nfiles)
		g.files[j].goImport, g.files[j].goPkg = g.files[i].goImport, g.files[i].goPkg
	}
	for i, f := range g.files {
		for j := i + 1; j < nfiles; j++ {
			if j == i+1 || g.p(1, 2) {
				f.imports = append(f.imports, &importM{f: g.files[j], public: g.p(1, 3)})
			}
		}
		g.Shuffle(len(f.imports), func(a, b int) { f.imports[a], f.imports[b] = f.imports[b], f.imports[a] })
	}
	// declarations, with full names unique over all files, also as packages
	taken := map[string]map[string]bool{}
	for i := range g.files {
		f := g.files[i]
		if taken[f.pkg] == nil {
			taken[f.pkg] = map[string]bool{}
			for _, o := range g.files { // sub-packages
				if rest, ok := strings.CutPrefix(join(o.pkg, ""), join(f.pkg, "")); o.pkg != "" && (f.pkg == "" || ok) {
					if f.pkg == "" {
						rest = o.pkg
					}
					first, _, _ := strings.Cut(rest, ".")
					taken[f.pkg][first] = true
				}
			}
		}
		for k := 1 + g.Intn(3); k > 0; k-- {
			f.msgs = append(f.msgs, g.msg(f, nil, 1+g.Intn(3), taken[f.pkg]))
		}
		for k := g.Intn(3); k > 0; k-- {
			f.enums = append(f.enums, g.enum(f, nil, taken[f.pkg]))
		}
	}
	for _, f := range g.files {
		for _, m := range f.msgs {
			g.fill(m)
		}
		if g.p(1, 3) {
			s := &svcM{name: "Svc"}
			for taken[f.pkg][s.name] {
				s.name += "x"
			}
			taken[f.pkg][s.name] = true
			ms := []interface{}{}
			for _, d := range decls(f) {
				if _, ok := d.(*msgM); ok {
					ms = append(ms, d)
				}
			}
			for k := 1 + g.Intn(2); k > 0; k-- {
				r := &rpcM{name: fmt.Sprintf("call%d", k)}
				r.req = g.ref(f, f.pkg, ms[g.Intn(len(ms))], false)
				r.ret = g.ref(f, f.pkg, ms[g.Intn(len(ms))], false)
				s.rpcs = append(s.rpcs, r)
			}
			f.svcs = append(f.svcs, s)
		}
	}
}

func (g *gen) text() string {
	var b strings.Builder
	for _, f := range g.files {
		fmt.Fprintf(&b, "// ---- %s\n%s", f.name, f.text())
	}
	return b.String()
}
