package main

// Code against contract: both run in lockstep, loops are cut at their heads
// with inferred (and then checked) invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pair struct {
	c, s *State // s may be nil
}

func (p pair) sides() []*State {
	if p.s == nil {
		return []*State{p.c}
	}
	return []*State{p.c, p.s}
}

func (p pair) clone() pair {
	q := pair{c: p.c.clone()}
	if p.s != nil {
		q.s = p.s.clone()
	}
	return q
}

func syncTo(from, to *State) {
	if to == nil {
		return
	}
	to.pc = from.pc
	to.invDone = from.invDone
}

type mismatch string

// broken ends the proof of a target: what it says cannot be proved
type broken string

// pairs runs both sides to terminal events (ret, panic, back, exit)
func (x *Exec) pairs(p0 pair) []pair {
	bc := len(p0.c.watch)
	bs := 0
	if p0.s != nil {
		bs = len(p0.s.watch)
	}
	var out []pair
	work := []pair{p0}
	for len(work) > 0 {
		if x.sample > 0 && len(out) >= 2*x.sample {
			x.cut = true
			return out
		}
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if len(work)+len(out) > 3000 {
			panic(unsupported("too many path pairs"))
		}
		if p.c.ev == evNone {
			for _, c := range x.run(p.c) {
				q := pair{c: c}
				if p.s != nil {
					q.s = p.s.clone()
					syncTo(c, q.s)
				}
				work = append(work, q)
			}
			continue
		}
		if p.s != nil && p.s.ev == evNone {
			for _, s := range x.run(p.s) {
				q := pair{c: p.c.clone(), s: s}
				syncTo(s, q.c)
				work = append(work, q)
			}
			continue
		}
		ch := p.c.ev == evHead
		sh := p.s != nil && p.s.ev == evHead
		if !ch && !sh {
			out = append(out, p)
			continue
		}
		var res []pair
		done := false
		if ch && sh {
			res, done = x.tryLoop(p, true, true)
			if !done && x.bigLoop(p.c) {
				panic(broken(x.why)) // relating them otherwise would take hours
			}
		}
		if !done && ch && (!sh || true) {
			res, done = x.oneSided(p, true)
		}
		if !done && sh {
			res, done = x.oneSided(p, false)
		}
		if !done {
			panic(mismatch(fmt.Sprintf("loops of code and contract cannot be related at %s", x.headPos(p.c))))
		}
		for _, q := range res {
			x.resume(q.c, bc)
			if q.s != nil {
				x.resume(q.s, bs)
			}
			work = append(work, q)
		}
	}
	return out
}

func (x *Exec) headPos(st *State) string {
	if len(st.frames) == 0 {
		return ""
	}
	f := st.top()
	for _, in := range f.block.Instrs {
		if p := x.pos(in.Pos()); p != "" {
			return p
		}
	}
	return f.fn.String()
}

// resume continues a state which left a loop
func (x *Exec) resume(st *State, base int) {
	if st.ev != evExit {
		return
	}
	if len(st.watch) < base {
		return // the enclosing loop was left as well
	}
	st.ev = evNone
	if st.evInfo == "returned" {
		st.evInfo = ""
		return
	}
	f := st.top()
	if n := len(st.watch); n > 0 {
		w := st.watch[n-1]
		if w.depth == len(st.frames)-1 {
			if f.block == w.header {
				st.ev = evBack
				return
			}
			if !w.blocks[f.block] {
				st.watch = st.watch[:n-1]
				st.ev = evExit
				return
			}
		}
	}
	x.atHead(st)
}

// oneSided advances one side past the loop it stands at
func (x *Exec) oneSided(p pair, code bool) (res []pair, ok bool) {
	st := p.s
	if code {
		st = p.c
	}
	mk := func(o *State) pair {
		if code {
			q := pair{c: o}
			if p.s != nil {
				q.s = p.s.clone()
				syncTo(o, q.s)
			}
			return q
		}
		q := pair{c: p.c.clone(), s: o}
		syncTo(o, q.c)
		return q
	}
	// peeling: does the loop end after at most two iterations here?
	work := []*State{st.clone()}
	var outs []*State
	fine := true
	for k := 0; k < 3 && len(work) > 0 && fine; k++ {
		var next []*State
		for _, w := range work {
			w := w.clone()
			n := len(w.watch)
			x.enterLoop(w)
			w.ev = evNone
			for _, o := range x.run(w) {
				switch o.ev {
				case evBack:
					o.watch = o.watch[:n]
					o.ev = evHead
					next = append(next, o)
				case evHead, evPanic:
					if o.ev == evHead && len(o.watch) > n {
						fine = false
					}
					outs = append(outs, o)
				default:
					outs = append(outs, o)
				}
			}
		}
		work = next
	}
	if fine && len(work) == 0 {
		for _, o := range outs {
			res = append(res, mk(o))
		}
		return res, true
	}
	sub := pair{c: st.clone()}
	exits, ok := x.tryLoop(sub, true, false)
	if !ok {
		return nil, false
	}
	for _, e := range exits {
		res = append(res, mk(e.c))
	}
	return res, true
}

func (x *Exec) bigLoop(st *State) bool {
	f := st.top()
	return len(x.w.loops(f.fn)[f.block]) >= 60
}

func (x *Exec) enterLoop(st *State) {
	f := st.top()
	st.watch = append(st.watch, watch{depth: len(st.frames) - 1, header: f.block, blocks: x.w.loops(f.fn)[f.block]})
}

// ---------- loop invariants ----------

type shapeKind uint8

const (
	shConst shapeKind = iota
	shComps
	shGrow
	shOpaque // slice with unknown content
)

type lvar struct {
	side  int
	phi   *ssa.Phi
	obj   *Obj
	buf   int // content of a buffer
	typ   types.Type
	v0    Value
	shape shapeKind
	comps []*lcomp
	// grow
	c0    *Seq
	grow  int // grow class
	fails int
	name  string
}

type lcomp struct {
	x0    *Term
	cls   int // -1 constant
	coef  int64
	fails int
	id    bool // the identity of a string
	v     *lvar
	k     int
}

type loopInv struct {
	h      *headState
	x      *Exec
	vars   []*lvar
	nCls   int
	facts  map[string]bool // dropped candidate facts
	cand   map[string]func(vals func(*lcomp) *Term, st []*State) *Term
	rawMod bool
	heapA  bool // an effect on all fields of structs
	scrMod bool // private scratch cells
	rawSep bool
	heapM  map[string]bool
	mapMod bool
	mapSep bool
	allocM bool
	bufEq  bool
	step   map[int]int64 // constant step of a class
	p0     pair
}

// varComps splits a value; ok=false if it cannot vary
func varComps(v Value) ([]*Term, bool) {
	switch s := v.(type) {
	case *Term:
		return []*Term{s}, true
	case PtrV:
		switch s.kind {
		case pkRaw:
			return []*Term{s.addr}, true
		case pkHeap:
			return append([]*Term{s.addr}, s.idx...), true
		case pkBuf:
			if s.sub != nil {
				return nil, false
			}
			return []*Term{s.off}, true
		}
		return nil, true
	case SliceV:
		a := s.addr
		if s.kind != pkRaw {
			a = s.off
		}
		r := []*Term{s.n, s.cap, a}
		if s.kind == pkHeap {
			r = append(r, s.addr)
		}
		return append(r, s.isnil), true
	case StrV:
		return []*Term{s.id, s.n}, true
	case IfaceV:
		if s.data == nil {
			return nil, false
		}
		return []*Term{s.tag, s.data}, true
	case MapV:
		if s.obj != nil {
			return nil, true
		}
		return []*Term{s.ref}, true
	case FuncV:
		if s.fn != nil {
			return nil, true
		}
		return []*Term{s.sym, s.nilF}, true
	case StructV:
		var r []*Term
		for _, f := range s.f {
			c, ok := varComps(f)
			if !ok {
				return nil, false
			}
			r = append(r, c...)
		}
		return r, true
	case ArrV:
		var r []*Term
		for _, f := range s.e {
			c, ok := varComps(f)
			if !ok {
				return nil, false
			}
			r = append(r, c...)
		}
		return r, true
	case OpaqueV:
		return nil, true
	case IterV:
		return nil, true
	case TupleV:
		return nil, true
	}
	return nil, false
}

// sameShape: b can be described by the components of a's kind
func sameShape(a, b Value) bool {
	switch s := a.(type) {
	case *Term:
		t, ok := b.(*Term)
		return ok && t.w == s.w
	case PtrV:
		t, ok := b.(PtrV)
		if !ok {
			return false
		}
		if s.kind != t.kind {
			return false
		}
		switch s.kind {
		case pkObj:
			return s.obj == t.obj && fmt.Sprint(s.path) == fmt.Sprint(t.path)
		case pkBuf:
			return s.buf == t.buf && fmt.Sprint(s.sub) == fmt.Sprint(t.sub)
		case pkHeap:
			return s.region == t.region && len(s.idx) == len(t.idx)
		}
		return true
	case SliceV:
		t, ok := b.(SliceV)
		return ok && s.kind == t.kind && (s.kind != pkBuf || s.buf == t.buf)
	case StrV:
		_, ok := b.(StrV)
		return ok
	case IfaceV:
		t, ok := b.(IfaceV)
		return ok && t.data != nil
	case MapV:
		t, ok := b.(MapV)
		return ok && s.obj == t.obj
	case FuncV:
		t, ok := b.(FuncV)
		return ok && s.fn == t.fn && len(s.bind) == 0 && len(t.bind) == 0
	case StructV:
		t, ok := b.(StructV)
		if !ok || len(s.f) != len(t.f) {
			return false
		}
		for i := range s.f {
			if !sameShape(s.f[i], t.f[i]) {
				return false
			}
		}
		return true
	case ArrV:
		t, ok := b.(ArrV)
		if !ok || len(s.e) != len(t.e) {
			return false
		}
		for i := range s.e {
			if !sameShape(s.e[i], t.e[i]) {
				return false
			}
		}
		return true
	case OpaqueV:
		t, ok := b.(OpaqueV)
		return ok && t.id == s.id
	case IterV:
		t, ok := b.(IterV)
		return ok && t.obj == s.obj
	}
	return false
}

func rebuildV(v Value, take func() *Term) Value {
	switch s := v.(type) {
	case *Term:
		return take()
	case PtrV:
		switch s.kind {
		case pkRaw:
			s.addr = take()
		case pkHeap:
			s.addr = take()
			n := make([]*Term, len(s.idx))
			for i := range n {
				n[i] = take()
			}
			s.idx = n
		case pkBuf:
			s.off = take()
		}
		return s
	case SliceV:
		s.n = take()
		s.cap = take()
		if s.kind == pkRaw {
			s.addr = take()
		} else {
			s.off = take()
		}
		if s.kind == pkHeap {
			s.addr = take()
		}
		s.isnil = take()
		return s
	case StrV:
		id := take()
		n := take()
		if id == s.id && n == s.n {
			return s
		}
		return StrV{id: id, n: n}
	case IfaceV:
		t, d := take(), take()
		if t == s.tag && d == s.data {
			return s
		}
		return IfaceV{tag: t, data: d, typ: nil}
	case MapV:
		if s.obj == nil {
			s.ref = take()
		}
		return s
	case FuncV:
		if s.fn == nil {
			s.sym = take()
			s.nilF = take()
		}
		return s
	case StructV:
		f := make([]Value, len(s.f))
		for i := range f {
			f[i] = rebuildV(s.f[i], take)
		}
		return StructV{s.typ, f}
	case ArrV:
		f := make([]Value, len(s.e))
		for i := range f {
			f[i] = rebuildV(s.e[i], take)
		}
		return ArrV{s.elem, f}
	}
	return v
}

// heapNil gives a nil pointer to a named struct the shape of its non-nil values
func heapNil(v Value, t types.Type) Value {
	if p, ok := v.(PtrV); ok && p.kind == pkRaw && p.addr.isC(0) && t != nil && isHeapPtr(t) {
		return PtrV{kind: pkHeap, addr: p.addr, region: regionOf(under(t).(*types.Pointer).Elem())}
	}
	return v
}

func (l *loopInv) addVar(v *lvar) {
	v.v0 = heapNil(v.v0, v.typ)
	cs, ok := varComps(v.v0)
	if ok {
		for k, c := range cs {
			v.comps = append(v.comps, &lcomp{x0: c, cls: -1, v: v, k: k})
		}
	}
	l.vars = append(l.vars, v)
}

func (l *loopInv) findObj(side int, o *Obj) *lvar {
	for _, v := range l.vars {
		if v.side == side && v.obj == o {
			return v
		}
	}
	return nil
}

func (l *loopInv) findBuf(side, b int) *lvar {
	for _, v := range l.vars {
		if v.side == side && v.buf == b && v.phi == nil && v.obj == nil {
			return v
		}
	}
	return nil
}

func (x *Exec) tryLoop(p0 pair, _, both bool) (exits []pair, ok bool) {
	depth := x.loopDepth
	x.loopDepth++
	defer func() { x.loopDepth = depth }()
	s0 := x.sample
	defer func() { x.sample = s0 }()
	nobs := len(x.obs)
	q0 := x.quiet
	defer func() {
		if r := recover(); r != nil {
			if m, isM := r.(mismatch); isM {
				x.quiet = q0
				x.obs = x.obs[:nobs]
				if x.debug {
					fmt.Fprintf(os.Stderr, "loop pairing failed: %s\n", string(m))
				}
				x.why = string(m)
				exits, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return x.loopCut(p0), true
}

type headState struct {
	p     pair
	vals  map[*lcomp]*Term
	grows map[*lvar]*Seq
	clob0 int // number of the first buffer content forgotten by the head
	delta map[int]*Term
}

func (x *Exec) loopCut(p0 pair) []pair {
	l := &loopInv{x: x, p0: p0, facts: map[string]bool{}, heapM: map[string]bool{}, step: map[int]int64{}, bufEq: true}
	for side, st := range p0.sides() {
		f := st.top()
		for _, in := range f.block.Instrs {
			ph, isPhi := in.(*ssa.Phi)
			if !isPhi {
				break
			}
			l.addVar(&lvar{side: side, phi: ph, typ: ph.Type(), v0: f.env[ph], name: ph.Comment})
		}
	}
	// Quiet rounds. The first ones look at a sample of the paths only: what they
	// keep is checked on every path below.
	where := x.headPos(p0.c)
	s0 := x.sample
	x.quiet++
	sampled := func() bool {
		defer func() { x.sample = s0 }()
		still := 0 // samples in a row that weakened nothing
		for round := 0; round < 40; round++ {
			h := l.head(p0)
			l.h = h
			x.cut = false
			x.sample = sampleSize << min(still, 2)
			backs, _ := l.body(h)
			if x.debug {
				fmt.Fprintf(os.Stderr, "%*s%d round %d at %s: %d backs; %s\n", 2*x.loopDepth, "", time.Now().Unix()%1000, round, where, len(backs), l.describe())
			}
			if l.weaken(p0, h, backs) {
				still = 0
				continue
			}
			if still == 0 && x.cut {
				l.loosen()
			}
			if still++; still >= 3 || !x.cut {
				return true
			}
		}
		return still > 0
	}()
	x.quiet--
	if !sampled {
		panic(mismatch("no stable loop invariant at " + where))
	}
	// full rounds: obligations are recorded
	nobs := len(x.obs)
	for round := 0; round < 40; round++ {
		x.obs = x.obs[:nobs]
		h := l.head(p0)
		l.h = h
		backs, exits := l.body(h)
		if x.debug {
			fmt.Fprintf(os.Stderr, "%*s%d full round %d at %s: %d backs; %s\n", 2*x.loopDepth, "", time.Now().Unix()%1000, round, where, len(backs), l.describe())
		}
		x.quiet++
		again := l.weaken(p0, h, backs)
		x.quiet--
		if again {
			continue
		}
		if x.quiet == 0 {
			for _, b := range backs {
				if bad := l.check(p0, h, b); bad != "" {
					x.record("loop invariant", where, Sat, bad)
				} else {
					x.record("loop invariant", where, Unsat, "")
				}
			}
		}
		return exits
	}
	panic(mismatch("no stable loop invariant at " + where))
}

// loosen lets pointers which no sampled path changed be changed: with that many
// paths, one of those left out will
func (l *loopInv) loosen() {
	for _, v := range l.vars {
		if v.phi != nil && (v.shape == shConst || v.shape == shComps) && len(v.comps) == 1 && v.comps[0].cls < 0 && isHeapPtr(v.typ) {
			v.shape = shComps
			l.nCls++
			v.comps[0].cls, v.comps[0].coef = l.nCls, 1
		}
	}
}

func (l *loopInv) describe() string {
	var b strings.Builder
	for _, v := range l.vars {
		fmt.Fprintf(&b, "[%d %s sh%d", v.side, v.name, v.shape)
		if v.obj != nil {
			fmt.Fprintf(&b, " obj%d", v.obj.id)
		}
		for _, c := range v.comps {
			fmt.Fprintf(&b, " %d*%d", c.coef, c.cls)
		}
		if v.shape == shGrow {
			fmt.Fprintf(&b, " g%d", v.grow)
		}
		b.WriteString("] ")
	}
	var hs []string
	for k := range l.heapM {
		hs = append(hs, k)
	}
	fmt.Fprintf(&b, "raw=%v heap=%v%v map=%v dropped=%d", l.rawMod, l.heapA, hs, l.mapMod, len(l.facts))
	return b.String()
}

// head builds the havocked states at the loop head
func (l *loopInv) head(p0 pair) *headState {
	x := l.x
	h := &headState{p: p0.clone(), vals: map[*lcomp]*Term{}, grows: map[*lvar]*Seq{}, delta: map[int]*Term{}, clob0: tc.fresh["clob"]}
	sides := h.p.sides()
	growSrc := map[int]*Src{}
	arb := map[int]*Term{}
	for _, v := range l.vars {
		for _, c := range v.comps {
			if c.cls < 0 {
				h.vals[c] = c.x0
				continue
			}
			if c.x0.w == 0 {
				if arb[c.cls] == nil {
					arb[c.cls] = freshVar("lb", 0)
				}
				h.vals[c] = arb[c.cls]
				continue
			}
			if c.id {
				if arb[c.cls] == nil {
					arb[c.cls] = freshVar("strid", c.x0.w)
				}
				h.vals[c] = arb[c.cls]
				continue
			}
			d := h.delta[c.cls]
			if d == nil {
				d = freshVar("ld", c.x0.w)
				h.delta[c.cls] = d
			}
			h.vals[c] = tAdd(c.x0, tMul(bv(c.x0.w, uint64(c.coef)), d))
		}
	}
	for _, v := range l.vars {
		st := sides[v.side]
		if v.shape == shConst || v.phi == nil && v.obj == nil {
			continue
		}
		var nv Value
		switch v.shape {
		case shComps:
			k := 0
			nv = rebuildV(v.v0, func() *Term { t := h.vals[v.comps[k]]; k++; return t })
			st.wellFormed(nv)
		case shGrow, shOpaque:
			s0 := v.v0.(SliceV)
			n := h.vals[v.comps[0]]
			ws := compWidths(s0.elem)
			var content *Seq
			if v.shape == shGrow {
				src := growSrc[v.grow]
				if src == nil {
					nm := freshName("grow")
					src = &Src{name: nm, key: nm}
					growSrc[v.grow] = src
				}
				dn := tSub(n, v.comps[0].x0)
				st.assume(tUlt(dn, i64(int64(lenMax))))
				content = catSeq(v.c0, mkSeq(ws, Seg{kind: sgSub, src: src, off: i64(0), n: dn}))
				content.n = n
			} else {
				content = opaqueSeq("content", ws, n)
			}
			st.assume(tUlt(n, i64(int64(lenMax))))
			sl := st.bufSlice(s0.elem, content)
			if s0.isnil != tFls {
				sl.isnil = freshVar("isnil", 0)
				st.assume(tImp(sl.isnil, tEq(n, i64(0))))
			}
			if s0.kind == pkBuf {
				// may still share the array of the initial slice
				b0 := st.bufs[s0.buf]
				nb := st.bufs[sl.buf]
				nb.group = b0.group
				nb.base = tAdd(b0.at(), s0.off)
				st.bufs[sl.buf] = nb
				st.clobberGroup(b0, tAdd(s0.off, s0.n), sl.buf)
			}
			h.grows[v] = content
			nv = sl
		}
		switch {
		case v.phi != nil:
			st.top().env[v.phi] = nv
		case v.obj != nil:
			st.objs[v.obj] = nv
		}
	}
	// buffers modified in place
	bufSrc := map[int]*Src{}
	for _, v := range l.vars {
		if v.phi != nil || v.obj != nil || v.buf == 0 || v.shape == shConst {
			continue
		}
		st := sides[v.side]
		b := st.bufs[v.buf]
		var src *Src
		if l.bufEq {
			src = bufSrc[v.grow]
		}
		if src == nil {
			nm := freshName("bufc")
			src = &Src{name: nm, key: nm}
			bufSrc[v.grow] = src
		}
		b.content = mkSeq(b.content.ws, Seg{kind: sgSub, src: src, off: i64(0), n: b.content.n})
		st.bufs[v.buf] = b
	}
	ver := newVersion("raw")
	for i, st := range sides {
		if l.rawMod {
			w := ver
			if l.rawSep && i == 1 {
				w = newVersion("raw")
			}
			st.raw = &RawMem{ver: w}
		} else if l.scrMod {
			st.raw = st.raw.vis()
			root := mkUF("scratch:", 64, freshVar("scr", 64))
			st.raw = st.raw.with(rawStore{addr: root, seq: opaqueSeq("scr", []int{8}, i64(1<<20)), n: i64(1 << 20), es: 1})
		}
		for r := range l.heapM {
			st.heap[r] = &HeapMem{ver: ver}
		}
		if l.heapA {
			st.heapVer, st.heap = ver, map[string]*HeapMem{}
		}
		if l.mapMod {
			w := ver
			if l.mapSep && i == 1 {
				w = newVersion("map")
			}
			st.mver = w
			st.mlog = nil
			st.mfresh = nil
		}
		if l.allocM {
			st.allocE = strings.TrimSuffix(strings.TrimPrefix(ver, "raw@"), "@")
			st.allocN = 0
		}
	}
	for _, k := range sortedKeys(l.candidates(h)) {
		if l.facts[k] {
			continue
		}
		h.p.c.assume(l.cand[k](func(c *lcomp) *Term { return h.vals[c] }, nil))
	}
	if h.p.s != nil {
		// facts assumed on either side hold for both
		for _, f := range h.p.s.facts() {
			h.p.c.assume(f)
		}
		syncTo(h.p.c, h.p.s)
	}
	for _, st := range sides {
		n := 0
		_ = n
		x.enterLoop(st)
		st.ev = evNone
	}
	return h
}

// candidates: facts about the values at the head
func (l *loopInv) candidates(h *headState) map[string]func(func(*lcomp) *Term, []*State) *Term {
	l.cand = map[string]func(func(*lcomp) *Term, []*State) *Term{}
	seen := map[int]bool{}
	for _, v := range l.vars {
		for _, c := range v.comps {
			if c.cls < 0 || c.x0.w == 0 || c.id {
				continue
			}
			c := c
			if !seen[c.cls] && (c.coef == 1 || c.coef == -1) {
				seen[c.cls] = true
				w := c.x0.w
				dl := func(val func(*lcomp) *Term) *Term {
					return tMul(bv(w, uint64(c.coef)), tSub(val(c), c.x0))
				}
				l.cand[fmt.Sprintf("up%d", c.cls)] = func(val func(*lcomp) *Term, _ []*State) *Term { return tSle(bv(w, 0), dl(val)) }
				l.cand[fmt.Sprintf("down%d", c.cls)] = func(val func(*lcomp) *Term, _ []*State) *Term { return tSle(dl(val), bv(w, 0)) }
				if s := l.step[c.cls]; s > 1 && s&(s-1) == 0 {
					l.cand[fmt.Sprintf("mult%d", c.cls)] = func(val func(*lcomp) *Term, _ []*State) *Term {
						return tEq(tBin(OpBvAnd, dl(val), bv(w, uint64(s-1))), bv(w, 0))
					}
				}
			}
		}
	}
	// bounds from the exit conditions
	for side, st := range h.p.sides() {
		f := st.top()
		for b := range l.x.w.loops(f.fn)[f.block] {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			_, sg, isInt := basicWidth(cmp.X.Type())
			if !isInt {
				continue
			}
			for k, sd := range []ssa.Value{cmp.X, cmp.Y} {
				oth := cmp.Y
				up := cmp.Op == token.LSS || cmp.Op == token.LEQ || cmp.Op == token.NEQ
				down := cmp.Op == token.GTR || cmp.Op == token.GEQ || cmp.Op == token.NEQ
				if k == 1 {
					oth = cmp.X
					up, down = down, up
				}
				ph := phiOf(sd, f.block)
				if ph == nil {
					continue
				}
				var lv *lvar
				for _, v := range l.vars {
					if v.side == side && v.phi == ph {
						lv = v
					}
				}
				if lv == nil || len(lv.comps) != 1 || lv.comps[0].cls < 0 {
					continue
				}
				var bound *Term
				if c, ok := oth.(*ssa.Const); ok {
					bound, _ = constValue(c).(*Term)
				} else if v, ok := f.env[oth]; ok {
					if ins, isI := oth.(ssa.Instruction); isI && l.x.w.loops(f.fn)[f.block][ins.Block()] {
						continue
					}
					bound, _ = v.(*Term)
				}
				c := lv.comps[0]
				if bound == nil || bound.w != c.x0.w {
					continue
				}
				le := tUle
				if sg {
					le = tSle
				}
				if up {
					l.cand[fmt.Sprintf("le%d.%s.%d", side, ph.Name(), bound.id)] = func(val func(*lcomp) *Term, _ []*State) *Term { return le(val(c), bound) }
					one := bv(bound.w, 1)
					l.cand[fmt.Sprintf("lt%d.%s.%d", side, ph.Name(), bound.id)] = func(val func(*lcomp) *Term, _ []*State) *Term {
						return tOr(le(val(c), tSub(bound, one)))
					}
				}
				if down {
					l.cand[fmt.Sprintf("ge%d.%s.%d", side, ph.Name(), bound.id)] = func(val func(*lcomp) *Term, _ []*State) *Term { return le(bound, val(c)) }
				}
			}
		}
	}
	l.typedCands(h)
	return l.cand
}

// typedCands adds the Cand_ contracts which fit variables of the loop
func (l *loopInv) typedCands(h *headState) {
	x := l.x
	for _, cf := range x.w.cands() {
		for side, st := range h.p.sides() {
			f := st.top()
			// choices per parameter: loop variables, else parameters of the function
			choice := make([][]any, len(cf.Params))
			vary, fit := false, true
			for k, p := range cf.Params {
				for _, v := range l.vars {
					if v.side == side && v.phi != nil && types.Identical(v.typ, p.Type()) {
						choice[k] = append(choice[k], v)
						vary = true
					}
				}
				if choice[k] == nil {
					for _, q := range f.fn.Params {
						if types.Identical(q.Type(), p.Type()) {
							choice[k] = append(choice[k], f.env[q])
						}
					}
				}
				if choice[k] == nil || len(choice[k]) > 4 {
					fit = false
				}
			}
			if !vary || !fit {
				continue
			}
			var rec func(k int, args []any)
			rec = func(k int, args []any) {
				if k < len(choice) {
					for _, c := range choice[k] {
						rec(k+1, append(args[:len(args):len(args)], c))
					}
					return
				}
				name := fmt.Sprintf("%s.%d", cf.Name(), side)
				for _, a := range args {
					if v, ok := a.(*lvar); ok {
						name += "." + v.phi.Name()
					} else {
						name += ".p"
					}
				}
				entry := l.p0.sides()[side]
				l.cand[name] = func(val func(*lcomp) *Term, _ []*State) (r *Term) {
					vs := make([]Value, len(args))
					for j, a := range args {
						v, ok := a.(*lvar)
						if !ok {
							vs[j] = a
							continue
						}
						k := 0
						if v.shape == shConst {
							vs[j] = v.v0
							continue
						}
						vs[j] = rebuildV(v.v0, func() *Term { t := val(v.comps[k]); k++; return t })
					}
					return x.evalPure(entry.clone(), cf, vs)
				}
			}
			rec(0, nil)
		}
	}
}

// isHeapPtr: pointers of the type lead to a typed region
func isHeapPtr(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && !isRawPtrType(t) && func() bool { _, n := p.Elem().(*types.Named); return n }()
}

// body runs one arbitrary iteration
func (l *loopInv) body(h *headState) (backs, exits []pair) {
	x := l.x
	p := h.p.clone()
	outs := x.pairs(p)
	for _, o := range outs {
		cb := o.c.ev == evBack
		if o.s == nil {
			if cb {
				backs = append(backs, o)
			} else {
				exits = append(exits, o)
			}
			continue
		}
		sb := o.s.ev == evBack
		switch {
		case cb && sb:
			backs = append(backs, o)
		case !cb && !sb:
			exits = append(exits, o)
		case o.c.ev == evPanic || o.s.ev == evPanic:
			exits = append(exits, o)
		default:
			if x.sol.check(o.c.facts(), true) != Unsat {
				if x.debug {
					fmt.Fprintf(os.Stderr, "mismatch: code ev %d spec ev %d at %s / %s\n", o.c.ev, o.s.ev, x.headPos(o.c), x.headPos(o.s))
					fs := o.c.facts()
					if len(fs) > 500 {
						fs = fs[:500]
					}
					for _, f := range fs {
						fmt.Fprintln(os.Stderr, "    fact", f)
					}
				}
				panic(mismatch(fmt.Sprintf("code and contract leave the loop at %s at different iterations", x.headPos(h.p.c))))
			}
		}
	}
	return backs, exits
}

func (l *loopInv) cur(b pair, v *lvar) Value {
	st := b.sides()[v.side]
	switch {
	case v.phi != nil:
		return heapNil(st.top().env[v.phi], v.typ)
	case v.obj != nil:
		return heapNil(st.objs[v.obj], v.typ)
	}
	return nil
}

func valEqSyn(a, b Value, t types.Type) (eq bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				eq = false
				return
			}
			panic(r)
		}
	}()
	if sameShape(a, b) {
		ca, ok1 := varComps(a)
		cb, ok2 := varComps(b)
		if ok1 && ok2 && len(ca) == len(cb) {
			for i := range ca {
				if ca[i] != cb[i] {
					return false
				}
			}
			return true
		}
	}
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return false
	}
	if _, ok := a.(IterV); ok {
		return a.(IterV).obj == b.(IterV).obj
	}
	if ia, ok := a.(IfaceV); ok {
		ib := b.(IfaceV)
		return ia.tag == ib.tag && ia.data == ib.data && ia.data != nil
	}
	return valueKey(a, t) == valueKey(b, t)
}

// weaken drops what the back edges do not preserve; true if something changed
func (l *loopInv) weaken(p0 pair, h *headState, backs []pair) bool {
	x := l.x
	changed := false
	// memory touched
	for _, b := range backs {
		for side, st := range b.sides() {
			hs := h.p.sides()[side]
			for o, v0 := range hs.objs {
				v1, ok := st.objs[o]
				if !ok || l.findObj(side, o) != nil {
					continue
				}
				if !valEqSyn(v0, v1, o.typ) {
					l.addVar(&lvar{side: side, obj: o, typ: o.typ, v0: p0.sides()[side].objs[o], name: o.name})
					changed = true
				}
			}
			for id, c0 := range hs.bufs {
				if _, ok := p0.sides()[side].bufs[id]; !ok {
					continue // made by the head for a grown slice: lives one iteration
				}
				c1 := st.bufs[id]
				if c1.content != c0.content && c1.content.keyStr() != c0.content.keyStr() {
					lv := l.findBuf(side, id)
					// clobbered spare capacity of grown slices is not a variable
					if lv == nil && !l.isInitialGrow(b, side, id, c0.content, c1.content) {
						l.vars = append(l.vars, &lvar{side: side, buf: id, shape: shOpaque, name: "buf"})
						changed = true
					}
				}
			}
			if st.raw.key() != hs.raw.key() && !l.rawMod {
				if st.raw.vis().key() != hs.raw.vis().key() {
					l.rawMod = true
					changed = true
				} else if !l.scrMod {
					l.scrMod = true
					changed = true
				}
			}
			if st.heapVer != hs.heapVer && !l.heapA {
				l.heapA = true
				changed = true
			}
			for o := range st.objs {
				if _, ok := hs.objs[o]; !ok && strings.HasPrefix(o.name, "glob:") && valueKey(st.objs[o], o.typ) != valueKey(st.symValue(o.name, o.typ), o.typ) {
					panic(unsupported(o.name + " is first used in a loop which writes it"))
				}
			}
			for r, hm := range st.heap {
				h0 := hs.heap[r]
				if h0 == nil {
					h0 = &HeapMem{ver: hs.heapVer}
				}
				if (len(hm.log) != len(h0.log) || hm.ver != h0.ver) && !l.heapM[r] {
					l.heapM[r] = true
					changed = true
				}
			}
			if (len(st.mlog) != len(hs.mlog) || st.mver != hs.mver) && !l.mapMod {
				l.mapMod = true
				changed = true
			}
			if (st.allocN != hs.allocN || st.allocE != hs.allocE) && !l.allocM {
				l.allocM = true
				changed = true
			}
		}
	}
	if changed {
		return true
	}
	// memory must agree between the sides, at entry and on every back edge
	if p0.s != nil {
		if l.rawMod && !l.rawSep {
			ok := x.rawEqual(p0.c, p0.s)
			for _, b := range backs {
				ok = ok && x.rawEqual(b.c, b.s)
			}
			if !ok {
				if x.bigLoop(p0.c) {
					// going on with separate memories would take hours
					panic(broken("code and contract leave different memory after an iteration of the loop at " + x.headPos(p0.c)))
				}
				l.rawSep = true
				changed = true
			}
		}
		if l.mapMod && !l.mapSep {
			ok := x.mapsEqual(p0.c, p0.s)
			for _, b := range backs {
				ok = ok && x.mapsEqual(b.c, b.s)
			}
			if !ok {
				l.mapSep = true
				changed = true
			}
		}
		if l.heapA {
			ok := x.heapsEqual(p0.c, p0.s)
			for _, b := range backs {
				ok = ok && x.heapsEqual(b.c, b.s)
			}
			if !ok {
				panic(mismatch("code and contract write fields differently in a loop"))
			}
		}
		for r := range l.heapM {
			ok := x.heapEqual(p0.c, p0.s, r)
			for _, b := range backs {
				ok = ok && x.heapEqual(b.c, b.s, r)
			}
			if !ok {
				panic(mismatch("code and contract write " + r + " differently in a loop"))
			}
		}
		if l.bufEq {
			ok := true
			var bc, bs []int
			for _, v := range l.vars {
				if v.buf != 0 {
					if v.side == 0 {
						bc = append(bc, v.buf)
					} else {
						bs = append(bs, v.buf)
					}
				}
			}
			if len(bc) > 0 || len(bs) > 0 {
				ok = len(bc) == len(bs) && len(bc) == 1
				if ok {
					ok = x.seqEqual(p0.c, p0.c.bufs[bc[0]].content, p0.s.bufs[bs[0]].content)
					for _, b := range backs {
						ok = ok && x.seqEqual(b.c, b.c.bufs[bc[0]].content, b.s.bufs[bs[0]].content)
					}
				}
				if !ok {
					l.bufEq = false
					changed = true
				}
			}
		}
	}
	// shapes
	for _, v := range l.vars {
		if v.phi == nil && v.obj == nil {
			continue
		}
		shape0 := v.shape
		for _, b := range backs {
			if v.shape != shape0 && v.shape >= shGrow {
				break // the head of this round does not fit the new shape
			}
			nv := l.cur(b, v)
			switch v.shape {
			case shConst:
				if !valEqSyn(v.v0, nv, v.typ) {
					if _, isS := v.v0.(SliceV); isS && l.grows(b, v) {
						l.toGrow(p0, v)
					} else if len(v.comps) > 0 && sameShape(v.v0, nv) {
						v.shape = shComps
					} else if _, isS := v.v0.(SliceV); isS {
						l.toGrow(p0, v)
					} else {
						panic(mismatch(fmt.Sprintf("loop variable %s changes its kind (%T -> %T)", v.name, v.v0, nv)))
					}
					changed = true
				}
			case shComps:
				if !sameShape(v.v0, nv) || l.grows(b, v) {
					if _, isS := v.v0.(SliceV); isS {
						l.toGrow(p0, v)
						changed = true
					} else {
						panic(mismatch(fmt.Sprintf("loop variable %s changes its kind", v.name)))
					}
				}
			case shGrow:
				if _, isS := nv.(SliceV); !isS {
					panic(mismatch("grown slice changes its kind"))
				}
				d, ok := l.growth(b, v, h, nv.(SliceV))
				if !ok {
					v.shape = shOpaque
					changed = true
					break
				}
				// agree with the class
				for _, w := range l.vars {
					if w == v || w.shape != shGrow || w.grow != v.grow {
						continue
					}
					if w.comps[0].cls != v.comps[0].cls || w.comps[0].coef != v.comps[0].coef {
						continue
					}
					wd, ok := l.growth(b, w, h, l.cur(b, w).(SliceV))
					if ok && !x.seqEqual(b.c, d, wd) {
						if x.debug {
							fmt.Fprintf(os.Stderr, "growth differs:\n  %v\n  %v\n", d, wd)
						}
						v.fails++
						x.growN++
						v.grow = x.growN
						changed = true
					}
					break
				}
			}
		}
	}
	if changed {
		// length classes of grown slices follow below in a later round
		return true
	}
	return l.weakenComps(h, backs) || changed
}

// grows: slice variable v moves to another array or is extended in place
func (l *loopInv) grows(b pair, v *lvar) bool {
	if v.shape == shGrow || v.shape == shOpaque {
		return true
	}
	s, ok := v.v0.(SliceV)
	if !ok {
		return false
	}
	n, ok := l.cur(b, v).(SliceV)
	if !ok {
		return false
	}
	if !sameShape(s, n) {
		return true
	}
	if s.kind != pkBuf || s.off != n.off || s.n == n.n {
		return false
	}
	st := b.sides()[v.side]
	h0 := l.h.p.sides()[v.side].bufs[s.buf].content
	h1 := st.bufs[s.buf].content
	return h0 != nil && h0.keyStr() != h1.keyStr() && st.prove(tUle(s.n, n.n))
}

// isInitialGrow: the buffer is shared with the initial value of a slice which
// grows in the loop; the head already forgets all behind that value, so only a
// change in front of its end makes the buffer a variable of its own
func (l *loopInv) isInitialGrow(b pair, side, id int, c0, c1 *Seq) bool {
	st := b.sides()[side]
	// what the head has forgotten anyway
	kept, k := i64(0), 0
	for ; k < len(c0.segs); k++ {
		g := c0.segs[k]
		if g.kind == sgSub && strings.HasPrefix(g.src.name, "clob!") {
			if n, err := strconv.Atoi(g.src.name[5:]); err == nil && n >= l.h.clob0 {
				break
			}
		}
		kept = tAdd(kept, g.n)
	}
	fresh := k < len(c0.segs)
	for ; k < len(c0.segs); k++ {
		g := c0.segs[k]
		if g.kind != sgSub || !strings.HasPrefix(g.src.name, "clob!") {
			fresh = false
		}
	}
	if fresh && (kept.isC(0) || l.x.seqEqual(st, sliceSeq(st, c0, i64(0), kept), sliceSeq(st, c1, i64(0), kept))) {
		return true
	}
	g := st.bufs[id].group
	for _, v := range l.vars {
		if v.side != side || v.phi == nil && v.obj == nil {
			continue
		}
		s, ok := v.v0.(SliceV)
		if !ok || s.kind != pkBuf || st.bufs[s.buf].group != g || !l.grows(b, v) {
			continue
		}
		if v.shape == shConst || v.shape == shComps {
			return true // becomes a grown slice: decided in the next round
		}
		at := tAdd(s.off, s.n)
		if at.isC(0) || l.x.seqEqual(st, sliceSeq(st, c0, i64(0), at), sliceSeq(st, c1, i64(0), at)) {
			return true
		}
	}
	return false
}

func (l *loopInv) toGrow(p0 pair, v *lvar) {
	st := p0.sides()[v.side]
	s0 := v.v0.(SliceV)
	v.shape = shGrow
	v.c0 = st.sliceContent(s0)
	v.grow = 0
	// cap, address and nilness are havocked with the buffer; only n is a variable
	v.comps = v.comps[:1]
}

func (l *loopInv) growth(b pair, v *lvar, h *headState, nv SliceV) (*Seq, bool) {
	st := b.sides()[v.side]
	c := st.sliceContent(nv)
	hc := h.grows[v]
	if hc == nil {
		return nil, false
	}
	if !st.prove(tUle(hc.n, c.n)) {
		if l.x.debug {
			fmt.Fprintf(os.Stderr, "growth: shrinks: %v -> %v\n", hc.n, c.n)
		}
		return nil, false
	}
	pre := sliceSeq(st, c, i64(0), hc.n)
	if !l.x.seqEqual(st, pre, hc) {
		if l.x.debug {
			fmt.Fprintf(os.Stderr, "growth: start changed:\n  %v\n  %v\n", pre, hc)
		}
		return nil, false
	}
	return sliceSeq(st, c, hc.n, tSub(c.n, hc.n)), true
}

// newComps gives the component values at a back edge
func (l *loopInv) newComps(b pair, v *lvar) []*Term {
	nv := l.cur(b, v)
	switch v.shape {
	case shGrow, shOpaque:
		return []*Term{nv.(SliceV).n}
	case shConst:
		cs, _ := varComps(v.v0)
		return cs
	}
	cs, _ := varComps(nv)
	return cs
}

func (l *loopInv) weakenComps(h *headState, backs []pair) bool {
	type cb struct {
		c   *lcomp
		nxt []*Term // per back
	}
	var all []cb
	for _, v := range l.vars {
		if v.phi == nil && v.obj == nil {
			continue
		}
		if v.shape == shConst {
			continue
		}
		for k, c := range v.comps {
			e := cb{c: c}
			for _, b := range backs {
				e.nxt = append(e.nxt, l.newComps(b, v)[k])
			}
			c.id = c.id || isStrID(c.x0)
			for _, t := range e.nxt {
				c.id = c.id || isStrID(t)
			}
			all = append(all, e)
		}
	}
	eqOnly := func(e cb) bool { return e.c.id || e.c.x0.w == 0 } // equality is all there is
	// representative of each class
	rep := map[int]*cb{}
	for i := range all {
		c := all[i].c
		if c.cls >= 0 && rep[c.cls] == nil && !eqOnly(all[i]) && (c.coef == 1 || c.coef == -1) {
			rep[c.cls] = &all[i]
		}
	}
	repB := map[int]*cb{}
	for i := range all {
		c := all[i].c
		if c.cls >= 0 && eqOnly(all[i]) && repB[c.cls] == nil {
			repB[c.cls] = &all[i]
		}
	}
	var failing []*cb
	for i := range all {
		e := &all[i]
		c := e.c
		ok := true
		for j, b := range backs {
			if eqOnly(*e) {
				var want *Term
				if c.cls < 0 {
					want = c.x0
				} else {
					want = repB[c.cls].nxt[j]
				}
				if want != e.nxt[j] && !b.c.prove(tEq(want, e.nxt[j])) {
					ok = false
					break
				}
				continue
			}
			d := tSub(e.nxt[j], c.x0)
			var want *Term
			if c.cls < 0 {
				want = bv(c.x0.w, 0)
			} else {
				r := rep[c.cls]
				if r == e {
					continue
				}
				if r == nil {
					ok = false
					break
				}
				dr := tMul(bv(c.x0.w, uint64(r.c.coef)), tSub(r.nxt[j], r.c.x0))
				want = tMul(bv(c.x0.w, uint64(c.coef)), dr)
			}
			if d != want && !b.c.prove(tEq(d, want)) {
				ok = false
				break
			}
		}
		if !ok {
			failing = append(failing, e)
		}
	}
	if len(failing) == 0 {
		return l.weakenFacts(h, backs)
	}
	// regroup the failing components by their steps
	type group struct {
		cls  int
		rep  *cb
		coef int64
	}
	var groups []group
	steps := func(e *cb) []*Term {
		var r []*Term
		for j := range backs {
			r = append(r, tSub(e.nxt[j], h.vals[e.c]))
		}
		return r
	}
	for _, e := range failing {
		e.c.fails++
		c := e.c
		newCls := func() {
			l.nCls++
			c.cls, c.coef = l.nCls, 1
			groups = append(groups, group{cls: l.nCls, rep: e})
		}
		if eqOnly(*e) {
			joined := false
			if c.fails < 3 {
				for _, g := range groups {
					if g.rep.c.x0 == c.x0 && eqOnly(*g.rep) {
						same := true
						for j, b := range backs {
							if g.rep.nxt[j] != e.nxt[j] && !b.c.prove(tEq(g.rep.nxt[j], e.nxt[j])) {
								same = false
							}
						}
						if same {
							c.cls, c.coef = g.cls, 1
							joined = true
							break
						}
					}
				}
			}
			if !joined {
				newCls()
			}
			continue
		}
		joined := false
		se := steps(e)
		if c.fails < 4 && len(backs) > 0 {
			for _, g := range groups {
				if g.rep.c.x0.w != c.x0.w || eqOnly(*g.rep) {
					continue
				}
				sg := steps(g.rep)
				if k, ok := ratio(sg, se, backs); ok {
					c.cls, c.coef = g.cls, k
					joined = true
					break
				}
			}
		}
		if !joined {
			newCls()
			// constant step?
			s := int64(0)
			okc := true
			for _, t := range se {
				if !t.isConst() {
					okc = false
					break
				}
				v := sext64(t.c, t.w)
				if v < 0 {
					v = -v
				}
				if s == 0 || v == s {
					s = v
				} else {
					okc = false
				}
			}
			if okc && s > 1 {
				l.step[c.cls] = s
			}
		}
	}
	return true
}

// ratio finds k with b = k*a on every back edge; the class representative must
// have coefficient 1, so k is only accepted when a divides b
func ratio(a, b []*Term, backs []pair) (int64, bool) {
	same, neg := true, true
	for j := range a {
		if a[j] != b[j] {
			same = false
		}
		if tNeg(a[j]) != b[j] {
			neg = false
		}
	}
	if same {
		return 1, true
	}
	if neg {
		return -1, true
	}
	// constant multiples
	var k int64
	okk := true
	for j := range a {
		if !a[j].isConst() || !b[j].isConst() {
			okk = false
			break
		}
		x, y := sext64(a[j].c, a[j].w), sext64(b[j].c, b[j].w)
		if x == 0 && y == 0 {
			continue
		}
		if x == 0 || y%x != 0 || (k != 0 && k != y/x) {
			okk = false
			break
		}
		k = y / x
	}
	if okk && k != 0 {
		return k, true
	}
	same, neg = true, true
	for j := range a {
		st := backs[j].c
		if same && !st.prove(tEq(a[j], b[j])) {
			same = false
		}
		if neg && !st.prove(tEq(tNeg(a[j]), b[j])) {
			neg = false
		}
		if !same && !neg {
			return 0, false
		}
	}
	if same {
		return 1, true
	}
	if neg {
		return -1, true
	}
	return 0, false
}

func (l *loopInv) weakenFacts(h *headState, backs []pair) bool {
	changed := false
	for _, k := range sortedKeys(l.cand) {
		if l.facts[k] {
			continue
		}
		f := l.cand[k]
		// at entry
		g0 := f(func(c *lcomp) *Term { return c.x0 }, nil)
		ok := g0 == tTrue || l.entry(h).prove(g0)
		for _, b := range backs {
			if !ok {
				break
			}
			b := b
			g := f(func(c *lcomp) *Term { return l.newComps(b, c.v)[c.k] }, nil)
			ok = b.c.prove(g)
		}
		if !ok {
			l.facts[k] = true
			changed = true
		}
	}
	return changed
}

func (l *loopInv) entry(h *headState) *State { return l.p0.c }

// check verifies the invariant on one back edge (hard queries)
func (l *loopInv) check(p0 pair, h *headState, b pair) string {
	// the quiet rounds proved every part for structurally identical head states;
	// this run must prove them again on the states of the final round
	cp := *l
	cp.facts = map[string]bool{}
	for k := range l.facts {
		cp.facts[k] = true
	}
	if cp.weaken(p0, h, []pair{b}) {
		return "the loop invariant is not preserved: " + l.describe()
	}
	return ""
}

// ---------- equality of sequences, memories and values ----------

func (x *Exec) prove(st *State, g *Term) bool {
	if x.quiet > 0 {
		return st.prove(g)
	}
	return st.proveHard(g) == Unsat
}

func (x *Exec) seqEqual(st *State, a, b *Seq) bool {
	if a == b || a.keyStr() == b.keyStr() {
		return true
	}
	if !x.prove(st, tEq(a.n, b.n)) {
		return false
	}
	if a.n.isC(0) || b.n.isC(0) {
		return true
	}
	as := append([]Seg{}, a.segs...)
	bs := append([]Seg{}, b.segs...)
	ws := a.ws
	expand := func(l []Seg) []Seg {
		g := l[0]
		switch g.kind {
		case sgVarint:
			for k := int64(1); k <= 10; k++ {
				if x.prove(st, tEq(g.n, i64(k))) {
					var es [][]*Term
					for j := int64(0); j < k; j++ {
						es = append(es, []*Term{varbyte(g.v, i64(j))})
					}
					return append([]Seg{{kind: sgElems, elems: es, n: i64(k)}}, l[1:]...)
				}
			}
		case sgSeq:
			// resolve the piece again under the current facts
			r := sliceSeq(st, g.seq, g.off, g.n)
			if !(len(r.segs) == 1 && r.segs[0].kind == sgSeq) {
				return append(append([]Seg{}, r.segs...), l[1:]...)
			}
		}
		return nil
	}
	for steps := 0; steps < 400; steps++ {
		for len(as) > 0 && (as[0].n.isC(0) || st.known(tEq(as[0].n, i64(0))) == 1) {
			as = as[1:]
		}
		for len(bs) > 0 && (bs[0].n.isC(0) || st.known(tEq(bs[0].n, i64(0))) == 1) {
			bs = bs[1:]
		}
		if len(as) == 0 && len(bs) == 0 {
			return true
		}
		if len(as) == 0 || len(bs) == 0 {
			rest := append(append([]Seg{}, as...), bs...)
			n := i64(0)
			for _, g := range rest {
				n = tAdd(n, g.n)
			}
			return x.prove(st, tEq(n, i64(0)))
		}
		g, h := as[0], bs[0]
		if g.keyStr() == h.keyStr() {
			as, bs = as[1:], bs[1:]
			continue
		}
		if g.kind == sgVarint && h.kind == sgVarint && x.prove(st, tEq(tZext(g.v, 64), tZext(h.v, 64))) {
			as, bs = as[1:], bs[1:]
			continue
		}
		if g.kind == sgVarint || g.kind == sgSeq {
			if e := expand(as); e != nil {
				as = e
				continue
			}
		}
		if h.kind == sgVarint || h.kind == sgSeq {
			if e := expand(bs); e != nil {
				bs = e
				continue
			}
		}
		if g.kind == sgElems && h.kind == sgElems {
			k := len(g.elems)
			if len(h.elems) < k {
				k = len(h.elems)
			}
			for j := 0; j < k; j++ {
				if !x.compsEqual(st, g.elems[j], h.elems[j]) {
					return false
				}
			}
			as, bs = dropSeg(as, k), dropSeg(bs, k)
			continue
		}
		if g.kind == sgElems && leq(st, g.n, h.n) {
			for j := range g.elems {
				if !x.compsEqual(st, g.elems[j], segAt(h, i64(int64(j)), ws)) {
					return false
				}
			}
			bs = append([]Seg{subSeg(h, g.n, tSub(h.n, g.n), ws)}, bs[1:]...)
			as = as[1:]
			continue
		}
		if h.kind == sgElems && leq(st, h.n, g.n) {
			for j := range h.elems {
				if !x.compsEqual(st, h.elems[j], segAt(g, i64(int64(j)), ws)) {
					return false
				}
			}
			as = append([]Seg{subSeg(g, h.n, tSub(g.n, h.n), ws)}, as[1:]...)
			bs = bs[1:]
			continue
		}
		// same length pieces
		if g.n == h.n || x.prove(st, tEq(g.n, h.n)) {
			if g.kind == sgSub && h.kind == sgSub && g.src.key == h.src.key && x.prove(st, tEq(g.off, h.off)) {
				as, bs = as[1:], bs[1:]
				continue
			}
			if !x.pointwise(st, mkSeq(ws, g), mkSeq(ws, h), g.n) {
				return false
			}
			as, bs = as[1:], bs[1:]
			continue
		}
		if leq(st, g.n, h.n) {
			if !x.pointwise(st, mkSeq(ws, g), mkSeq(ws, h), g.n) {
				return false
			}
			bs = append([]Seg{subSeg(h, g.n, tSub(h.n, g.n), ws)}, bs[1:]...)
			as = as[1:]
			continue
		}
		if leq(st, h.n, g.n) {
			if !x.pointwise(st, mkSeq(ws, g), mkSeq(ws, h), h.n) {
				return false
			}
			as = append([]Seg{subSeg(g, h.n, tSub(g.n, h.n), ws)}, as[1:]...)
			bs = bs[1:]
			continue
		}
		ra, rb := mkSeq(ws, as...), mkSeq(ws, bs...)
		return x.pointwise(st, ra, rb, ra.n)
	}
	return false
}

func dropSeg(l []Seg, k int) []Seg {
	g := l[0]
	if k == len(g.elems) {
		return l[1:]
	}
	return append([]Seg{{kind: sgElems, elems: g.elems[k:], n: i64(int64(len(g.elems) - k))}}, l[1:]...)
}

func (x *Exec) compsEqual(st *State, a, b []*Term) bool {
	g := tTrue
	for i := range a {
		g = tAnd(g, tEq(a[i], b[i]))
	}
	return g == tTrue || x.prove(st, g)
}

func (x *Exec) pointwise(st *State, a, b *Seq, n *Term) bool {
	i := freshVar("ix", 64)
	s2 := st.clone()
	s2.assume(tUlt(i, n))
	return x.compsEqual(s2, a.at(i), b.at(i))
}

func (x *Exec) valuesEqual(ca, cb *State, a, b Value, t types.Type) bool {
	switch p := a.(type) {
	case SliceV:
		q, ok := b.(SliceV)
		if !ok {
			return false
		}
		if p.kind == q.kind && p.kind != pkBuf && x.prove(ca, tAnd(tEq(p.n, q.n), tEq(sliceData(p), sliceData(q)))) && ca.raw.key() == cb.raw.key() {
			return true
		}
		return x.seqEqual(ca, ca.sliceContent(p), cb.sliceContent(q))
	case StrV:
		q, ok := b.(StrV)
		if !ok {
			return false
		}
		if p.id == q.id && x.prove(ca, tEq(p.n, q.n)) {
			return true
		}
		if x.prove(ca, tAnd(tEq(p.id, q.id), tEq(p.n, q.n))) {
			return true
		}
		return x.seqEqual(ca, p.content(), q.content())
	case StructV:
		q, ok := b.(StructV)
		if !ok || len(p.f) != len(q.f) {
			return false
		}
		for i := range p.f {
			if !x.valuesEqual(ca, cb, p.f[i], q.f[i], p.typ.Field(i).Type()) {
				return false
			}
		}
		return true
	case ArrV:
		q, ok := b.(ArrV)
		if !ok || len(p.e) != len(q.e) {
			return false
		}
		for i := range p.e {
			if !x.valuesEqual(ca, cb, p.e[i], q.e[i], p.elem) {
				return false
			}
		}
		return true
	case PtrV:
		q, ok := b.(PtrV)
		if ok && p.kind == pkObj && q.kind == pkObj && p.obj != q.obj {
			// two fresh objects: compare their contents
			if len(p.path) > 0 || len(q.path) > 0 || x.depthEq > 4 {
				return false
			}
			x.depthEq++
			defer func() { x.depthEq-- }()
			return x.valuesEqual(ca, cb, ca.objs[p.obj], cb.objs[q.obj], p.obj.typ)
		}
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if n, isn := t.(*types.Named); isn && n.Obj().Name() == "error" {
			return x.prove(ca, tEq(tEq(p.tag, i64(0)), tEq(q.tag, i64(0))))
		}
		if p.val != nil && q.val != nil && p.tag == q.tag && p.typ != nil {
			return x.valuesEqual(ca, cb, p.val, q.val, p.typ)
		}
		if p.data == nil || q.data == nil {
			return false
		}
		return x.prove(ca, tAnd(tEq(p.tag, q.tag), tOr(tEq(p.tag, i64(0)), tEq(p.data, q.data))))
	case FuncV:
		q, ok := b.(FuncV)
		if !ok {
			return false
		}
		if q.orNil && !p.orNil {
			if p.nilF == tTrue || p.fn == nil && x.prove(ca, p.nilF) {
				return true
			}
			if p.fn != nil {
				return x.closuresEqual(ca, cb, p, q)
			}
			return false
		}
		if p.fn != nil && q.fn != nil && (p.fn != q.fn || len(p.bind) > 0) {
			return x.closuresEqual(ca, cb, p, q)
		}
		return x.prove(ca, tEq(funcTerm(p), funcTerm(q)))
	case TupleV:
		q, ok := b.(TupleV)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !x.valuesEqual(ca, cb, p[i], q[i], t.(*types.Tuple).At(i).Type()) {
				return false
			}
		}
		return true
	}
	g := func() (r *Term) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); ok {
					r = tFls
					return
				}
				panic(e)
			}
		}()
		if ta, ok := a.(*Term); ok && isFloat(t) {
			if tb, ok := b.(*Term); ok {
				return tEq(ta, tb)
			}
		}
		return x.equal(ca, a, b, t)
	}()
	return g == tTrue || x.prove(ca, g)
}

// closuresEqual compares two function values on every argument
func (x *Exec) closuresEqual(ca, cb *State, p, q FuncV) bool {
	if len(p.fn.Params) != len(q.fn.Params) || x.depthEq > 2 {
		return false
	}
	if ct := x.w.contract(p.fn); ct != nil && ct.spec != nil && ct.spec == q.fn && !ct.opaque && ct.requires == nil && len(p.bind) == 0 && len(q.bind) == 0 {
		// the function is under exactly this contract
		x.used[p.fn.String()] = true
		return true
	}
	x.depthEq++
	defer func() { x.depthEq-- }()
	c, s := ca.clone(), cb.clone()
	concrete := func(vs []Value) bool {
		for _, v := range vs {
			if f, ok := v.(FuncV); !ok || f.fn == nil || len(f.bind) > 0 {
				return false
			}
		}
		return true
	}
	if concrete(p.bind) && concrete(q.bind) {
		// nothing known on this path is about what follows
		c.pc, s.pc = nil, nil
	}
	c.frames, s.frames, c.watch, s.watch = nil, nil, nil, nil
	c.ev, s.ev = evNone, evNone
	var args []Value
	for k, pr := range p.fn.Params {
		args = append(args, c.symValue(freshName(fmt.Sprintf("carg%d", k)), pr.Type()))
	}
	syncTo(c, s)
	x.enterFn(c, p, args)
	x.enterFn(s, q, args)
	save := x.entryState
	x.entryState = c
	ok := x.finish(pair{c, s}, p.fn.Signature, "closure "+p.fn.Name())
	x.entryState = save
	return ok
}

// enterFn starts f, or its contract if it has one
func (x *Exec) enterFn(st *State, f FuncV, args []Value) {
	if ct := x.w.contract(f.fn); ct != nil && ct.spec != nil && !ct.opaque && len(f.bind) == 0 {
		x.used[f.fn.String()] = true
		if ct.requires != nil {
			x.oblige(st, "precondition of "+f.fn.Name(), "", x.evalPure(st, ct.requires, args))
		}
		st.push(ct.spec, args, nil, nil)
		return
	}
	st.push(f.fn, args, f.bind, nil)
}

func (x *Exec) rawEqual(a, b *State) bool {
	if a.raw.key() == b.raw.key() {
		return true
	}
	if ma, mb := a.raw.vis(), b.raw.vis(); ma != a.raw || mb != b.raw {
		a, b = a.clone(), b.clone()
		a.raw, b.raw = ma, mb
		return x.rawEqual(a, b)
	}
	if a.raw.ver != b.raw.ver {
		return false
	}
	// range stores pairwise
	var ra, rb []rawStore
	for _, s := range a.raw.log {
		if s.seq != nil {
			ra = append(ra, s)
		}
	}
	for _, s := range b.raw.log {
		if s.seq != nil {
			rb = append(rb, s)
		}
	}
	if len(ra) != len(rb) {
		return false
	}
	for i := range ra {
		if ra[i].es != rb[i].es || !x.prove(a, tEq(ra[i].addr, rb[i].addr)) || !x.seqEqual(a, ra[i].seq, rb[i].seq) {
			return false
		}
	}
	done := map[string]bool{}
	cmp := func(p, q *State, flip bool) bool {
		for i := len(p.raw.log) - 1; i >= 0; i-- {
			s := p.raw.log[i]
			if s.seq != nil {
				continue
			}
			k := fmt.Sprintf("%d:%d", s.addr.id, s.size)
			if done[k] {
				continue
			}
			done[k] = true
			va, ok1 := p.raw.exact(s.addr, s.typ)
			vb, ok2 := q.raw.exact(s.addr, s.typ)
			if !ok1 {
				va = p.clone().load(PtrV{kind: pkRaw, addr: s.addr}, s.typ)
			}
			if !ok2 {
				// the same address may be written under another name
				if v, ok := x.findStore(q, s); ok {
					vb = v
				} else {
					vb = q.clone().load(PtrV{kind: pkRaw, addr: s.addr}, s.typ)
				}
			}
			eq := false
			if flip {
				eq = x.valuesEqual(q, p, vb, va, s.typ)
			} else {
				eq = x.valuesEqual(p, q, va, vb, s.typ)
			}
			if !eq {
				if x.debug {
					fmt.Fprintf(os.Stderr, "memory differs at %v: %v / %v\n", s.addr, vstr(va), vstr(vb))
					for i, m := range []*RawMem{p.raw, q.raw} {
						for _, s := range m.log {
							fmt.Fprintf(os.Stderr, "   store %d: [%v]%d := %v\n", i, s.addr, s.size, vstr(s.val))
						}
					}
				}
				x.why = fmt.Sprintf("memory at %v differs: %s / %s", s.addr, vstr(va), vstr(vb))
				return false
			}
		}
		return true
	}
	return cmp(a, b, false) && cmp(b, a, true)
}

func vstr(v Value) string {
	s := fmt.Sprintf("%v", v)
	if p, ok := v.(PtrV); ok {
		s = fmt.Sprintf("ptr(%d %v %v)", p.kind, p.addr, p.off)
	}
	if len(s) > 900 {
		s = s[:300] + "..."
	}
	return s
}

func (x *Exec) findStore(q *State, s rawStore) (Value, bool) {
	for i := len(q.raw.log) - 1; i >= 0; i-- {
		t := q.raw.log[i]
		if t.seq != nil {
			return nil, false
		}
		if t.size == s.size && q.prove(tEq(t.addr, s.addr)) {
			return t.val, true
		}
		if !disjoint(t.addr, t.size, s.addr, s.size) {
			d := tSub(s.addr, t.addr)
			if !q.prove(tAnd(tUle(i64(t.size), d), tUle(d, i64(-s.size)))) {
				return nil, false
			}
		}
	}
	return nil, false
}

// isStrID: the identity of a string
func isStrID(t *Term) bool {
	if isStrConst(t) || t.op == OpVar && strings.HasPrefix(t.name, "strid!") {
		return true
	}
	if t.op == OpUF {
		switch t.name {
		case "strcat", "strat", "strdata", "itoa", "quote":
			return true
		}
	}
	return false
}

func (x *Exec) heapEqual(a, b *State, r string) bool {
	ha, hb := a.heap[r], b.heap[r]
	if ha == nil {
		ha = &HeapMem{ver: a.heapVer}
	}
	if hb == nil {
		hb = &HeapMem{ver: b.heapVer}
	}
	if ha.ver != hb.ver {
		return false
	}
	if len(ha.log) == 0 && len(hb.log) == 0 {
		return true
	}
	for _, l := range [][]heapStore{ha.log, hb.log} {
		for _, s := range l {
			va := ha.load(r, s.val.w, s.keys, a)
			vb := hb.load(r, s.val.w, s.keys, b)
			if va != vb && !x.prove(a, tEq(va, vb)) && !x.freshEqual(a, b, va, vb) {
				x.why = fmt.Sprintf("%s at %v differs: %v / %v", r, s.keys, va, vb)
				return false
			}
		}
	}
	return true
}

// freshEqual: the addresses of two new objects with the same contents
func (x *Exec) freshEqual(a, b *State, va, vb *Term) bool {
	if va.op != OpVar || vb.op != OpVar {
		return false
	}
	p, ok1 := objByName[va.name]
	q, ok2 := objByName[vb.name]
	if !ok1 || !ok2 {
		return false
	}
	_, o1 := a.objs[p.obj]
	_, o2 := b.objs[q.obj]
	return o1 && o2 && x.valuesEqual(a, b, p, q, types.NewPointer(p.obj.typ))
}

func (x *Exec) mapsEqual(a, b *State) bool {
	if a.mver != b.mver || len(a.mlog) != len(b.mlog) {
		x.why = fmt.Sprintf("%s+%d / %s+%d", a.mver, len(a.mlog), b.mver, len(b.mlog))
		return false
	}
	for i := range a.mlog {
		p, q := a.mlog[i], b.mlog[i]
		if !x.prove(a, tEq(p.ref, q.ref)) || len(p.k) != len(q.k) || p.clr != q.clr {
			return false
		}
		if p.clr {
			continue
		}
		if !x.compsEqual(a, p.k, q.k) {
			x.why = fmt.Sprintf("keys %v / %v", p.k, q.k)
			return false
		}
		if !x.valuesEqual(a, b, p.v, q.v, p.vt) {
			x.why = fmt.Sprintf("values %v / %v", vstr(p.v), vstr(q.v))
			return false
		}
	}
	return true
}

func (x *Exec) memEqual(a, b *State) (bool, string) {
	x.why = ""
	if !x.rawEqual(a, b) {
		return false, "memory written differs from the contract: " + x.why
	}
	rs := map[string]bool{}
	for r := range a.heap {
		rs[r] = true
	}
	for r := range b.heap {
		rs[r] = true
	}
	for _, r := range sortedKeys(rs) {
		if !x.heapEqual(a, b, r) {
			return false, "field " + r + " differs from the contract: " + x.why
		}
	}
	if !x.mapsEqual(a, b) {
		return false, "map updates differ from the contract: " + x.why
	}
	if a.heapVer != b.heapVer {
		return false, "fields of structs written differ from the contract"
	}
	if w := x.globalsEqual(a, b); w != "" {
		return false, w
	}
	return true, ""
}

func (x *Exec) globalsEqual(a, b *State) string {
	gs := map[string]*ssa.Global{}
	for _, st := range []*State{a, b} {
		for g := range st.globals {
			gs[g.String()] = g
		}
	}
	for _, k := range sortedKeys(gs) {
		p, q := a.globalObj(gs[k]), b.globalObj(gs[k])
		va, vb := a.objs[p], b.objs[q]
		if _, ok := va.(SliceV); !ok && vstr(va) == vstr(vb) {
			continue
		}
		if !x.valuesEqual(a, b, va, vb, p.typ) {
			return fmt.Sprintf("package variable %s: code %s, contract %s", gs[k].Name(), x.show(a, va), x.show(b, vb))
		}
	}
	return ""
}

func (x *Exec) heapsEqual(a, b *State) bool {
	if a.heapVer != b.heapVer {
		return false
	}
	for _, st := range []*State{a, b} {
		for r := range st.heap {
			if !x.heapEqual(a, b, r) {
				return false
			}
		}
	}
	return true
}

// finish runs the pair to the end and compares what is observable
func (x *Exec) finish(p pair, sig *types.Signature, what string) (ok bool) {
	base := map[int]BufC{}
	for k, b := range p.c.bufs {
		base[k] = b
	}
	outs := x.pairs(p)
	ok = true
	fail := func(kind, pos, d string) {
		ok = false
		x.record(kind, pos, Sat, d)
	}
	for _, o := range outs {
		pos := o.c.evPos
		switch {
		case o.c.ev == evPanic && o.s.ev == evPanic:
			x.record("panics only where the contract does", pos, Unsat, "")
			continue
		case o.c.ev == evPanic:
			r := x.sol.check(o.c.facts(), true)
			if r != Unsat {
				fail("no panic", pos, o.c.evInfo+"\n"+x.factsStr(o.c))
			} else {
				x.record("no panic", pos, Unsat, "")
			}
			continue
		case o.s.ev == evPanic:
			if x.sol.check(o.c.facts(), true) != Unsat {
				fail("result equals the contract", pos, "the contract panics where the code returns\n"+x.factsStr(o.c))
			}
			continue
		}
		if o.c.ev != evRet || o.s.ev != evRet {
			fail("result equals the contract", pos, fmt.Sprintf("unexpected end of execution (%d, %d)", o.c.ev, o.s.ev))
			continue
		}
		x.live(o.c)
		bad := x.compareRet(o, sig, base)
		if bad != "" {
			// an infeasible path proves anything
			if x.sol.check(o.c.facts(), true) == Unsat {
				x.record("result equals the contract", pos, Unsat, "")
				continue
			}
			fail("result equals the contract", pos, bad+"\n"+x.factsStr(o.c))
			continue
		}
		x.record("result equals the contract", pos, Unsat, "")
	}
	return ok
}

func isErrType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func (x *Exec) compareRet(o pair, sig *types.Signature, base map[int]BufC) string {
	if len(o.c.results) != len(o.s.results) {
		return "different number of results"
	}
	failed := false
	for k := range o.c.results {
		t := sig.Results().At(k).Type()
		if isErrType(t) {
			if !x.valuesEqual(o.c, o.s, o.c.results[k], o.s.results[k], t) {
				return fmt.Sprintf("error result: code %v, contract %v", flatten(o.c.results[k], t), flatten(o.s.results[k], t))
			}
			if e := o.c.results[k].(IfaceV); x.prove(o.c, tNe(e.tag, i64(0))) {
				failed = true
			}
		}
	}
	if !failed {
		for k := range o.c.results {
			t := sig.Results().At(k).Type()
			if isErrType(t) {
				continue
			}
			if !x.valuesEqual(o.c, o.s, o.c.results[k], o.s.results[k], t) {
				return fmt.Sprintf("result %d: code %s, contract %s", k, x.show(o.c, o.c.results[k]), x.show(o.s, o.s.results[k]))
			}
		}
		if ok, why := x.memEqual(o.c, o.s); !ok {
			return why
		}
	}
	// parameter buffers
	for _, id := range sortedInts(base) {
		if pn, ok := x.paramBufs[id]; ok {
			// what the contract leaves to an append in place is not promised
			sc := o.s.bufs[id].content
			kept := i64(0)
			for _, g := range sc.segs {
				if g.kind == sgSub && strings.HasPrefix(g.src.name, "clob") {
					break
				}
				kept = tAdd(kept, g.n)
			}
			if kept != sc.n && leq(o.s, kept, pn) {
				pn = kept
			}
			a := sliceSeq(o.c, o.c.bufs[id].content, i64(0), pn)
			b := sliceSeq(o.s, sc, i64(0), pn)
			if !x.seqEqual(o.c, a, b) {
				return fmt.Sprintf("bytes of a parameter slice differ: code %v, contract %v", a, b)
			}
		}
	}
	return ""
}

func (x *Exec) show(st *State, v Value) string {
	if s, ok := v.(SliceV); ok {
		r := ""
		func() {
			defer func() { recover() }()
			r = st.sliceContent(s).String()
		}()
		if len(r) > 1500 {
			r = r[:1500] + "..."
		}
		return r
	}
	return vstr(v)
}

func sortedInts[V any](m map[int]V) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
