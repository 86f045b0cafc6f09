package main

// Values, byte/element sequences and their flattening to terms.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Obj struct {
	id   int
	name string
	typ  types.Type
}

type ptrKind uint8

const (
	pkRaw  ptrKind = iota // byte-addressed memory
	pkHeap                // typed heap: region + base address (+ index terms)
	pkObj                 // local object + path
	pkBuf                 // element of a buffer
)

type PtrV struct {
	kind   ptrKind
	addr   *Term
	region string
	idx    []*Term
	obj    *Obj
	path   []int
	buf    int
	off    *Term
	sub    []int // path inside a buffer element
}

type SliceV struct {
	elem  types.Type
	kind  ptrKind // pkRaw, pkHeap, pkBuf
	buf   int
	addr  *Term // raw: address of element 0; heap: base
	off   *Term // buf / heap: element offset
	n     *Term
	cap   *Term
	isnil *Term
}

type StrV struct {
	id  *Term // content identity
	n   *Term
	seq *Seq // content, may be nil (then bytes are sbyte(id,i))
	lit *string
}

type FuncV struct {
	fn    *ssa.Function // nil if symbolic
	bind  []Value
	nilF  *Term   // symbolic: is nil
	sym   *Term   // symbolic identity
	org   string  // "pkg.Struct.Field" the function was loaded from
	prm   []Value // receiver-ish context (the pointer it was loaded through)
	typ   types.Type
	orNil bool // contract: nil or this function
}

type IfaceV struct {
	tag  *Term // dynamic type identity, 0 = nil
	data *Term
	val  Value // concrete value when known
	typ  types.Type
}

type StructV struct {
	typ *types.Struct
	f   []Value
}

type ArrV struct {
	elem types.Type
	e    []Value
}

type TupleV []Value

type MapV struct {
	ref  *Term
	obj  *MapObj // concrete map (package tables)
	k, v types.Type
}

type MapObj struct {
	id int
	// contents live in State.maps
}

type IterV struct {
	obj  *Obj // holds position term
	m    MapV
	none bool // the loop which empties a map, done at once
	str  *StrV
}

type OpaqueV struct {
	t  types.Type
	id *Term
}

// ---------- sequences ----------

type segKind uint8

const (
	sgElems  segKind = iota
	sgSub            // elements src(off+i)
	sgSeq            // elements of another sequence from off
	sgVarint         // canonical varint of v
	sgFill           // n copies of one element
)

type Src struct {
	name string  // UF name prefix (with fixed leading args)
	args []*Term // leading args
	mem  *RawMem // raw memory snapshot
	addr *Term
	size int // element size in raw memory
	typ  types.Type
	key  string
}

type Seg struct {
	kind  segKind
	n     *Term
	elems [][]*Term
	src   *Src
	off   *Term
	seq   *Seq
	v     *Term
}

type Seq struct {
	ws   []int // widths of the components of one element
	segs []Seg
	n    *Term
}

// varlen is the length of the canonical varint of v (defined in the solver)
func varlen(v *Term) *Term {
	v = tZext(v, 64)
	if v.isConst() {
		n := int64(1)
		for c := v.c >> 7; c > 0; c >>= 7 {
			n++
		}
		return i64(n)
	}
	if umax(v) < 128 {
		return i64(1)
	}
	return mkUF("varlen", 64, v)
}

const varlenDef = "(define-fun |varlen| ((v (_ BitVec 64))) (_ BitVec 64) (ite (bvult v #x0000000000000080) #x0000000000000001 (ite (bvult v #x0000000000004000) #x0000000000000002 (ite (bvult v #x0000000000200000) #x0000000000000003 (ite (bvult v #x0000000010000000) #x0000000000000004 (ite (bvult v #x0000000800000000) #x0000000000000005 (ite (bvult v #x0000040000000000) #x0000000000000006 (ite (bvult v #x0002000000000000) #x0000000000000007 (ite (bvult v #x0100000000000000) #x0000000000000008 (ite (bvult v #x8000000000000000) #x0000000000000009 #x000000000000000a))))))))))\n"

// element i (64-bit term) of varint v, assuming i < varlen(v)
func varbyte(v, i *Term) *Term {
	v = tZext(v, 64)
	if i.isConst() {
		sh := tExtract(tShift(OpLshr, v, i64(int64(7*i.c))), 0, 7)
		if i.c >= 9 {
			return tZext(sh, 8)
		}
		last := tUlt(v, i64(1<<(7*(i.c+1)))) // given i < varlen(v)
		return tBin(OpBvOr, tZext(sh, 8), tIte(last, bv(8, 0), bv(8, 0x80)))
	}
	r := varbyte(v, i64(9))
	for k := 8; k >= 0; k-- {
		r = tIte(tEq(i, i64(int64(k))), varbyte(v, i64(int64(k))), r)
	}
	return r
}

func emptySeq(ws []int) *Seq { return &Seq{ws: ws, n: i64(0)} }

func mkSeq(ws []int, segs ...Seg) *Seq {
	s := &Seq{ws: ws, n: i64(0)}
	for _, g := range segs {
		s.push(g)
	}
	return s
}

func (s *Seq) push(g Seg) {
	if g.n.isC(0) {
		return
	}
	if g.kind == sgSeq && g.off.isC(0) && g.seq.n == g.n {
		for _, h := range g.seq.segs {
			s.push(h)
		}
		return
	}
	if k := len(s.segs); k > 0 {
		l := &s.segs[k-1]
		if l.kind == sgElems && g.kind == sgElems {
			ne := append(append([][]*Term{}, l.elems...), g.elems...)
			s.segs[k-1] = Seg{kind: sgElems, elems: ne, n: i64(int64(len(ne)))}
			s.n = tAdd(s.n, g.n)
			return
		}
		if l.kind == sgSub && g.kind == sgSub && l.src.key == g.src.key && tAdd(l.off, l.n) == g.off {
			s.segs[k-1] = Seg{kind: sgSub, src: l.src, off: l.off, n: tAdd(l.n, g.n)}
			s.n = tAdd(s.n, g.n)
			return
		}
	}
	s.segs = append(s.segs, g)
	s.n = tAdd(s.n, g.n)
}

func catSeq(a *Seq, bs ...*Seq) *Seq {
	r := &Seq{ws: a.ws, n: i64(0)}
	r.segs = append([]Seg{}, a.segs...)
	r.n = a.n
	for _, b := range bs {
		for _, g := range b.segs {
			r.push(g)
		}
	}
	return r
}

func segAt(g Seg, i *Term, ws []int) []*Term {
	switch g.kind {
	case sgElems:
		if i.isConst() && i.c < uint64(len(g.elems)) {
			return g.elems[i.c]
		}
		r := g.elems[len(g.elems)-1]
		for k := len(g.elems) - 2; k >= 0; k-- {
			nr := make([]*Term, len(ws))
			c := tEq(i, i64(int64(k)))
			for j := range ws {
				nr[j] = tIte(c, g.elems[k][j], r[j])
			}
			r = nr
		}
		return r
	case sgSub:
		return g.src.at(tAdd(g.off, i), ws)
	case sgSeq:
		return g.seq.at(tAdd(g.off, i))
	case sgVarint:
		return []*Term{varbyte(g.v, i)}
	case sgFill:
		return g.elems[0]
	}
	panic("segAt")
}

func (src *Src) at(i *Term, ws []int) []*Term {
	if src.mem != nil {
		a := tAdd(src.addr, tMul(i, i64(int64(src.size))))
		if len(ws) == 1 {
			return []*Term{src.mem.load(a, ws[0], nil)}
		}
		r := make([]*Term, len(ws))
		offs := compOffsets(src.typ)
		for j := range ws {
			r[j] = src.mem.load(tAdd(a, i64(offs[j])), ws[j], nil)
		}
		return r
	}
	r := make([]*Term, len(ws))
	for j, w := range ws {
		n := src.name
		if j > 0 {
			n = fmt.Sprintf("%s#%d", src.name, j)
		}
		r[j] = mkUF(n, w, append(append([]*Term{}, src.args...), i)...)
	}
	return r
}

// at returns element i, meaningful for i < n
func (s *Seq) at(i *Term) []*Term {
	if len(s.segs) == 0 {
		r := make([]*Term, len(s.ws))
		for j, w := range s.ws {
			r[j] = bv(w, 0)
		}
		return r
	}
	// constant-position fast path
	start := i64(0)
	type piece struct {
		g  Seg
		st *Term
	}
	var ps []piece
	for _, g := range s.segs {
		rel := tSub(i, start)
		if rel.isConst() && int64(rel.c) >= 0 {
			if g.n.isConst() {
				if rel.c < g.n.c {
					if len(ps) == 0 {
						return segAt(g, rel, s.ws)
					}
					ps = append(ps, piece{g, start})
					start = tAdd(start, g.n)
					break
				}
			}
		}
		ps = append(ps, piece{g, start})
		start = tAdd(start, g.n)
	}
	last := ps[len(ps)-1]
	r := segAt(last.g, tSub(i, last.st), s.ws)
	for k := len(ps) - 2; k >= 0; k-- {
		p := ps[k]
		// i < end of piece k
		c := tUlt(i, tAdd(p.st, p.g.n))
		if c == tFls {
			continue
		}
		e := segAt(p.g, tSub(i, p.st), s.ws)
		nr := make([]*Term, len(r))
		for j := range r {
			nr[j] = tIte(c, e[j], r[j])
		}
		r = nr
	}
	return r
}

func (g Seg) keyStr() string {
	switch g.kind {
	case sgElems:
		var b strings.Builder
		b.WriteString("E")
		for _, e := range g.elems {
			for _, c := range e {
				fmt.Fprintf(&b, "%d.", c.id)
			}
			b.WriteByte(',')
		}
		return b.String()
	case sgSub:
		return fmt.Sprintf("S%s@%d+%d", g.src.key, g.off.id, g.n.id)
	case sgSeq:
		return fmt.Sprintf("Q(%s)@%d+%d", g.seq.keyStr(), g.off.id, g.n.id)
	case sgVarint:
		return fmt.Sprintf("V%d", g.v.id)
	case sgFill:
		k := "F"
		for _, c := range g.elems[0] {
			k += fmt.Sprintf("%d.", c.id)
		}
		return fmt.Sprintf("%s*%d", k, g.n.id)
	}
	return "?"
}

func (s *Seq) keyStr() string {
	var b strings.Builder
	for _, g := range s.segs {
		b.WriteString(g.keyStr())
		b.WriteByte('|')
	}
	return b.String()
}

func (s *Seq) String() string {
	var p []string
	for _, g := range s.segs {
		switch g.kind {
		case sgElems:
			var es []string
			for _, e := range g.elems {
				es = append(es, fmt.Sprint(e))
			}
			p = append(p, "["+strings.Join(es, " ")+"]")
		case sgSub:
			p = append(p, fmt.Sprintf("%s[%v:+%v]", g.src.key, g.off, g.n))
		case sgSeq:
			p = append(p, fmt.Sprintf("(%v)[%v:+%v]", g.seq, g.off, g.n))
		case sgVarint:
			p = append(p, fmt.Sprintf("varint(%v)", g.v))
		case sgFill:
			p = append(p, fmt.Sprintf("fill(%v)*%v", g.elems[0], g.n))
		}
	}
	return strings.Join(p, " ++ ")
}

// identity term of a sequence content (equal structure => equal term)
func (s *Seq) ident() *Term {
	return mkVar("seq{"+internKey(s.keyStr())+"}", 64)
}

var internTab = map[string]int{}

func internKey(k string) string {
	id, ok := internTab[k]
	if !ok {
		id = len(internTab)
		internTab[k] = id
	}
	return fmt.Sprint(id)
}

// ---------- types ----------

var sizes = types.SizesFor("gc", "amd64")

func under(t types.Type) types.Type { return t.Underlying() }

func basicWidth(t types.Type) (w int, signed, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Float32:
		return 32, false, true
	case types.Float64, types.UntypedFloat:
		return 64, false, true
	}
	return 0, false, false
}

type comp struct {
	suffix string
	w      int // memory width (bool = 8)
	off    int64
}

func compsOf(t types.Type) []comp {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(t); ok {
			if w == 0 {
				w = 8
			}
			return []comp{{"", w, 0}}
		}
		if u.Info()&types.IsString != 0 {
			return []comp{{".data", 64, 0}, {".len", 64, 8}}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return []comp{{"", 64, 0}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []comp{{"", 64, 0}}
	case *types.Slice:
		return []comp{{".data", 64, 0}, {".len", 64, 8}, {".cap", 64, 16}}
	case *types.Interface:
		return []comp{{".tag", 64, 0}, {".val", 64, 8}}
	case *types.Struct:
		var r []comp
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := sizes.Offsetsof(fs)
		for i, f := range fs {
			for _, c := range compsOf(f.Type()) {
				r = append(r, comp{"." + f.Name() + c.suffix, c.w, offs[i] + c.off})
			}
		}
		return r
	case *types.Array:
		var r []comp
		if u.Len() > 64 {
			panic(unsupported("large array as a value"))
		}
		es := sizes.Sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			for _, c := range compsOf(u.Elem()) {
				r = append(r, comp{fmt.Sprintf("[%d]%s", i, c.suffix), c.w, i*es + c.off})
			}
		}
		return r
	}
	panic(unsupported("components of type " + t.String()))
}

func compWidths(t types.Type) []int {
	var ws []int
	for _, c := range compsOf(t) {
		ws = append(ws, c.w)
	}
	return ws
}

func compOffsets(t types.Type) []int64 {
	var ws []int64
	for _, c := range compsOf(t) {
		ws = append(ws, c.off)
	}
	return ws
}

type unsupported string

func (u unsupported) Error() string { return string(u) }

func boolTo8(t *Term) *Term   { return tIte(t, bv(8, 1), bv(8, 0)) }
func boolFrom8(t *Term) *Term { return tNe(t, bv(8, 0)) }

func isRawPtrType(t types.Type) bool {
	if b, ok := under(t).(*types.Basic); ok {
		return b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr
	}
	if p, ok := under(t).(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/hack") {
			return true
		}
	}
	return false
}

func regionOf(t types.Type) string {
	switch u := t.(type) {
	case *types.Named:
		o := u.Obj()
		s := o.Name()
		if o.Pkg() != nil {
			s = o.Pkg().Name() + "." + s
		}
		if ta := u.TypeArgs(); ta != nil {
			for i := 0; i < ta.Len(); i++ {
				s += "<" + regionOf(ta.At(i)) + ">"
			}
		}
		return s
	case *types.Alias:
		return regionOf(types.Unalias(t))
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---------- zero values ----------

func zeroValue(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(t); ok {
			if w == 0 {
				return tFls
			}
			return bv(w, 0)
		}
		if u.Info()&types.IsString != 0 {
			return strLit("")
		}
		return PtrV{kind: pkRaw, addr: i64(0)}
	case *types.Pointer:
		return nilPtr()
	case *types.Slice:
		return SliceV{elem: u.Elem(), kind: pkRaw, addr: i64(0), off: i64(0), n: i64(0), cap: i64(0), isnil: tTrue}
	case *types.Map:
		return MapV{ref: i64(0), k: u.Key(), v: u.Elem()}
	case *types.Interface:
		return IfaceV{tag: i64(0), data: i64(0)}
	case *types.Signature:
		return FuncV{nilF: tTrue, sym: i64(0), typ: t}
	case *types.Struct:
		s := StructV{typ: u}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroValue(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			panic(unsupported("zero value of a large array"))
		}
		a := ArrV{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, zeroValue(u.Elem()))
		}
		return a
	case *types.Chan:
		return nilPtr()
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, zeroValue(u.At(i).Type()))
		}
		return tv
	}
	panic(unsupported("zero value of " + t.String()))
}

func nilPtr() PtrV { return PtrV{kind: pkRaw, addr: i64(0)} }

func strLit(s string) StrV {
	id := mkVar("str:"+s, 64)
	seq := emptySeq([]int{8})
	if len(s) > 0 && len(s) <= 256 {
		var es [][]*Term
		for i := 0; i < len(s); i++ {
			es = append(es, []*Term{bv(8, uint64(s[i]))})
		}
		seq.push(Seg{kind: sgElems, elems: es, n: i64(int64(len(s)))})
	} else if len(s) > 0 {
		seq = nil
	}
	return StrV{id: id, n: i64(int64(len(s))), seq: seq, lit: &s}
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	if w, _, ok := basicWidth(t); ok {
		switch c.Value.Kind() {
		case constant.Bool:
			return mkBool(constant.BoolVal(c.Value))
		case constant.Int:
			if i, ok := constant.Int64Val(c.Value); ok {
				return bv(w, uint64(i))
			}
			u, _ := constant.Uint64Val(c.Value)
			return bv(w, u)
		case constant.Float:
			if b := under(t).(*types.Basic); b.Info()&types.IsInteger != 0 {
				if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
					return bv(w, uint64(i))
				}
			}
			return mkVar("float:"+c.Value.ExactString()+fmt.Sprint(w), w)
		}
	}
	if c.Value.Kind() == constant.String {
		return strLit(constant.StringVal(c.Value))
	}
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return nilPtr()
	}
	panic(unsupported("constant " + c.String()))
}

// string content
func (s StrV) content() *Seq {
	if s.seq != nil {
		return s.seq
	}
	src := &Src{name: "sbyte", args: []*Term{s.id}, key: fmt.Sprintf("str%d", s.id.id)}
	return mkSeq([]int{8}, Seg{kind: sgSub, src: src, off: i64(0), n: s.n})
}

// ---------- typed terms <-> values ----------

// funcIDs maps concrete functions to address terms and back
var funcByName = map[string]FuncV{}
var objByName = map[string]PtrV{}
var bufByName = map[string]int{}
var strByName = map[string]StrV{}
var mapByName = map[string]MapV{}
var ifaceByName = map[string]IfaceV{}

func addrTerm(p PtrV) *Term {
	switch p.kind {
	case pkRaw:
		return p.addr
	case pkHeap:
		if strings.Contains(p.region, "!") || len(p.idx) > 0 {
			return mkUF("addr:"+p.region, 64, append([]*Term{p.addr}, p.idx...)...)
		}
		return p.addr
	case pkObj:
		n := fmt.Sprintf("&obj%d", p.obj.id)
		for _, i := range p.path {
			n += fmt.Sprintf(".%d", i)
		}
		objByName[n] = p
		return mkVar(n, 64)
	case pkBuf:
		if p.sub != nil {
			panic(unsupported("address of a field of a buffer element"))
		}
		n := fmt.Sprintf("&buf%d", p.buf)
		bufByName[n] = p.buf
		return tAdd(mkVar(n, 64), p.off)
	}
	panic("addrTerm")
}

func ptrFromAddr(a *Term, t types.Type) PtrV {
	if a.op == OpVar {
		if p, ok := objByName[a.name]; ok {
			return p
		}
		if b, ok := bufByName[a.name]; ok {
			return PtrV{kind: pkBuf, buf: b, off: i64(0)}
		}
	}
	if isRawPtrType(t) || a.isC(0) {
		return PtrV{kind: pkRaw, addr: a}
	}
	if p, ok := under(t).(*types.Pointer); ok {
		return PtrV{kind: pkHeap, addr: a, region: regionOf(p.Elem())}
	}
	return PtrV{kind: pkRaw, addr: a}
}

// flatten gives the memory components of v (type t)
func flatten(v Value, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return []*Term{boolTo8(x)}
		}
		return []*Term{x}
	case PtrV:
		return []*Term{addrTerm(x)}
	case StrV:
		d := mkUF("strdata", 64, x.id)
		n := fmt.Sprint(d.id)
		strByName[n] = x
		return []*Term{d, x.n}
	case SliceV:
		return []*Term{sliceData(x), x.n, x.cap}
	case FuncV:
		return []*Term{funcTerm(x)}
	case MapV:
		return []*Term{mapTerm(x)}
	case IfaceV:
		d := x.data
		if d == nil {
			n := "iface" + freshName("v")
			d = mkVar(n, 64)
			ifaceByName[n] = x
		}
		return []*Term{x.tag, d}
	case StructV:
		var r []*Term
		for i, f := range x.f {
			r = append(r, flatten(f, x.typ.Field(i).Type())...)
		}
		return r
	case ArrV:
		var r []*Term
		for _, f := range x.e {
			r = append(r, flatten(f, x.elem)...)
		}
		return r
	case OpaqueV:
		return []*Term{x.id}
	}
	panic(unsupported(fmt.Sprintf("flatten %T (%v)", v, t)))
}

func mapTerm(x MapV) *Term {
	if x.obj != nil {
		n := fmt.Sprintf("&map%d", x.obj.id)
		mapByName[n] = x
		return mkVar(n, 64)
	}
	return x.ref
}

func funcTerm(x FuncV) *Term {
	if x.fn != nil {
		n := "func:" + x.fn.String()
		if x.orNil {
			n += "?" + fmt.Sprint(x.nilF.id)
		}
		if len(x.bind) > 0 {
			for _, b := range x.bind {
				var tt types.Type
				n += "," + valueKey(b, tt)
			}
		}
		funcByName[n] = x
		return mkVar(n, 64)
	}
	return x.sym
}

func valueKey(v Value, t types.Type) string {
	k := ""
	for _, c := range flatten(v, t) {
		k += fmt.Sprintf("%d.", c.id)
	}
	return k
}

func sliceData(x SliceV) *Term {
	switch x.kind {
	case pkRaw:
		return x.addr
	case pkHeap:
		if x.off.isC(0) {
			return x.addr
		}
		return tAdd(x.addr, tMul(x.off, i64(sizes.Sizeof(x.elem))))
	}
	n := fmt.Sprintf("&buf%d", x.buf)
	bufByName[n] = x.buf
	return tAdd(mkVar(n, 64), tMul(x.off, i64(sizes.Sizeof(x.elem))))
}

const lenMax = uint64(1) << 47

// unflatten builds a value of type t from component terms. raw tells that the
// components come from byte-addressed memory (mem is then its snapshot).
func unflatten(cs []*Term, t types.Type, raw bool, mem *RawMem, org string, via []Value) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(t); ok {
			if w == 0 {
				return boolFrom8(cs[0])
			}
			return cs[0]
		}
		if u.Info()&types.IsString != 0 {
			if s, ok := strByName[fmt.Sprint(cs[0].id)]; ok {
				return s
			}
			id := mkUF("strat", 64, cs[0], cs[1])
			s := StrV{id: id, n: cs[1]}
			if raw && mem != nil {
				src := rawSrc(mem, cs[0], 1, nil)
				s.seq = mkSeq([]int{8}, Seg{kind: sgSub, src: src, off: i64(0), n: cs[1]})
			}
			return s
		}
		return ptrFromAddr(cs[0], t)
	case *types.Pointer:
		p := ptrFromAddr(cs[0], t)
		return p
	case *types.Slice:
		base := cs[0]
		l := toLin(base)
		for a := range l.m {
			if a.op == OpVar && l.m[a] == 1 {
				if b, ok := bufByName[a.name]; ok {
					es := sizes.Sizeof(u.Elem())
					o := tSub(base, a)
					if es != 1 {
						if !o.isConst() {
							panic(unsupported("slice into a buffer at a symbolic byte offset"))
						}
						o = i64(int64(o.c) / es)
					}
					return SliceV{elem: u.Elem(), kind: pkBuf, buf: b, off: o, n: cs[1], cap: cs[2], isnil: tFls}
				}
			}
		}
		s := SliceV{elem: u.Elem(), kind: pkRaw, addr: base, off: i64(0), n: cs[1], cap: cs[2], isnil: tEq(base, i64(0))}
		if !raw {
			s.kind = pkHeap
		}
		return s
	case *types.Map:
		if cs[0].op == OpVar {
			if m, ok := mapByName[cs[0].name]; ok {
				return m
			}
		}
		return MapV{ref: cs[0], k: u.Key(), v: u.Elem()}
	case *types.Interface:
		if cs[1].op == OpVar {
			if v, ok := ifaceByName[cs[1].name]; ok && v.tag == cs[0] {
				return v
			}
		}
		return IfaceV{tag: cs[0], data: cs[1], typ: t}
	case *types.Signature:
		if cs[0].op == OpVar {
			if f, ok := funcByName[cs[0].name]; ok {
				return f
			}
		}
		return FuncV{sym: cs[0], nilF: tEq(cs[0], i64(0)), org: org, prm: via, typ: t}
	case *types.Struct:
		s := StructV{typ: u}
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(compsOf(u.Field(i).Type()))
			s.f = append(s.f, unflatten(cs[k:k+n], u.Field(i).Type(), raw, mem, org+"."+u.Field(i).Name(), via))
			k += n
		}
		return s
	case *types.Array:
		a := ArrV{elem: u.Elem()}
		k := 0
		n := len(compsOf(u.Elem()))
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, unflatten(cs[k:k+n], u.Elem(), raw, mem, org, via))
			k += n
		}
		return a
	case *types.Chan:
		return ptrFromAddr(cs[0], t)
	}
	panic(unsupported("unflatten " + t.String()))
}

func rawSrc(mem *RawMem, addr *Term, size int, t types.Type) *Src {
	return &Src{mem: mem, addr: addr, size: size, typ: t, key: fmt.Sprintf("raw{%s}%d*%d", mem.key(), addr.id, size)}
}
