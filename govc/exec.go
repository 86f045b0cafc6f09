package main

// Symbolic execution of go/ssa.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Name   string `json:"name"`
	Pos    string `json:"pos,omitempty"`
	Result string `json:"result"` // discharged, failed, unknown
	Detail string `json:"detail,omitempty"`
}

type Exec struct {
	w        *World
	sol      *Solver
	objN     int
	bufN     int
	quiet    int
	obs      []Oblig
	target   *ssa.Function
	name     string
	inlineIn map[string]bool
	assumed  map[string]bool // trusted things used
	used     map[string]bool // contracts used
	steps    int
	maxSteps int
	noSat    int
	zeroBufs map[string]int
	ccs      map[*pcNode]*closure
	seen     map[*ssa.BasicBlock]int // how often a sample went through
	cut      bool                    // paths were left out of a sample
	sample   int                     // >0: follow about that many paths only (never when obligations are recorded)
	rnd      uint64
	pure     map[*ssa.Function]bool
	trace    bool

	debug      bool
	loopDepth  int
	why        string
	growN      int
	entryState *State
	paramBufs  map[int]*Term // buffers of slice parameters and their visible length
	depthEq    int
	deadline   time.Time
	paths      int
	sums       map[*pcNode]*factSum
	quickN     int
	effects    map[string]string
	effRecs    []effectRec
	alive      bool // some path is satisfiable and returns
}

const sampleSize = 24

func (x *Exec) trust(s string) { x.assumed[s] = true }

// live notes a path which returns; the first satisfiable one shows that the
// contract is not vacuous
func (x *Exec) live(st *State) {
	x.paths++
	if !x.alive && x.quiet == 0 && x.paths < 200 && x.sol.check(st.facts(), true) == Sat {
		x.alive = true
	}
}

func (x *Exec) record(name, pos string, ok Result, detail string) {
	if x.quiet > 0 {
		return
	}
	if x.sample > 0 {
		panic("obligation recorded on sampled paths")
	}
	r := "discharged"
	if ok == Sat {
		r = "failed"
	} else if ok == Unknown {
		r = "unknown"
	}
	x.obs = append(x.obs, Oblig{Name: name, Pos: pos, Result: r, Detail: detail})
}

// oblige proves goal in st, records the obligation and then assumes the goal
func (x *Exec) oblige(st *State, kind, pos string, goal *Term) {
	if goal == tTrue {
		return
	}
	if x.quiet > 0 {
		st.assume(goal)
		return
	}
	if x.sample > 0 {
		panic("obligation recorded on sampled paths")
	}
	r := st.proveHard(goal)
	d := ""
	if r != Unsat {
		d = "cannot prove " + goal.String() + "\n" + x.factsStr(st)
	}
	n := kind
	if st.spec {
		n = "spec-" + kind
	}
	x.record(n, pos, r, d)
	st.assume(goal)
	if r != Unsat && !st.feasible() {
		st.ev = evDead
	}
}

func (x *Exec) factsStr(st *State) string {
	var b strings.Builder
	fs := st.facts()
	for i := len(fs) - 1; i >= 0; i-- {
		fmt.Fprintf(&b, "  given %v\n", fs[i])
		if b.Len() > 6000 {
			b.WriteString("  ...\n")
			break
		}
	}
	return b.String()
}

func (x *Exec) pos(p token.Pos) string {
	q := x.w.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	if q.Line == 0 {
		return ""
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---------- running ----------

func (x *Exec) newState() *State {
	st := x.w.base.clone()
	st.x = x
	st.ev, st.frames, st.results, st.watch, st.evInfo = evNone, nil, nil, nil, ""
	return st
}

func (st *State) push(fn *ssa.Function, args []Value, bind []Value, ret ssa.Value) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("call of " + fn.String() + " (no body)"))
	}
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Value{}, ret: ret}
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("call of %s with %d args", fn, len(args))))
	}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = bind[i]
	}
	if len(st.frames) > 60 {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	st.frames = append(st.frames, f)
}

// run executes st until every path reaches an event
func (x *Exec) run(st0 *State) []*State {
	var done []*State
	work := []*State{st0}
	for len(work) > 0 {
		if x.sample > 0 && len(done) >= x.sample {
			x.cut = true
			return done
		}
		k := len(work) - 1
		if x.sample > 0 {
			// the path at the block seen least, or any
			x.rnd = x.rnd*6364136223846793005 + 1442695040888963407
			r := int((x.rnd >> 33) % uint64(len(work)))
			k = r
			for j := range work {
				if x.rnd>>60&1 == 0 {
					break
				}
				j = (r + j) % len(work)
				if x.seen[work[j].top().block] < x.seen[work[k].top().block] {
					k = j
				}
			}
		}
		st := work[k]
		work[k] = work[len(work)-1]
		work = work[:len(work)-1]
		for st.ev == evNone {
			x.steps++
			if x.steps > x.maxSteps {
				panic(unsupported("step limit"))
			}
			if x.steps&255 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
				panic(unsupported("time limit"))
			}
			forks := x.step(st)
			if len(forks) > 0 {
				work = append(work, forks...)
			}
			if len(work)+len(done) > 4000 {
				panic(unsupported("too many paths"))
			}
		}
		if st.ev != evDead {
			done = append(done, st)
		}
	}
	return done
}

func (x *Exec) step(st *State) []*State {
	f := st.top()
	if f.ip >= len(f.block.Instrs) {
		panic("ran off block")
	}
	in := f.block.Instrs[f.ip]
	f.ip++
	if x.trace {
		fmt.Fprintf(os.Stderr, "%s%s b%d: %v\n", strings.Repeat(" ", len(st.frames)), f.fn.Name(), f.block.Index, in)
	}
	switch i := in.(type) {
	case *ssa.Jump:
		x.enter(st, f.block.Succs[0])
		return nil
	case *ssa.If:
		c := st.get(i.Cond).(*Term)
		if st.known(c) == 0 {
			if outs, ok := x.ifConvert(st, i); ok {
				st.ev = evDead
				return outs
			}
		}
		return x.branch(st, c, func(s *State) { x.enter(s, s.top().block.Succs[0]) }, func(s *State) { x.enter(s, s.top().block.Succs[1]) })
	case *ssa.Return:
		res := make([]Value, len(i.Results))
		for k, r := range i.Results {
			res[k] = st.get(r)
		}
		x.doReturn(st, res)
		return nil
	case *ssa.Panic:
		st.ev = evPanic
		st.evInfo = "explicit panic reached"
		st.evPos = x.pos(i.Pos())
		return nil
	}
	return x.instr(st, f, in)
}

func (x *Exec) doReturn(st *State, res []Value) {
	d := len(st.frames) - 1
	f := st.frames[d]
	st.frames = st.frames[:d]
	left := false
	for len(st.watch) > 0 && st.watch[len(st.watch)-1].depth >= d {
		st.watch = st.watch[:len(st.watch)-1]
		left = true
	}
	if d == 0 {
		st.ev = evRet
		st.results = res
		return
	}
	if f.retFn != nil {
		f.retFn(st, res)
	} else if f.ret != nil {
		if len(res) == 1 {
			st.top().env[f.ret] = res[0]
		} else {
			st.top().env[f.ret] = TupleV(res)
		}
	}
	if left && st.ev == evNone {
		st.evInfo = "returned"
		st.ev = evExit
	}
}

func (x *Exec) branch(st *State, c *Term, yes, no func(*State)) []*State {
	switch st.known(c) {
	case 1:
		yes(st)
		return nil
	case -1:
		no(st)
		return nil
	}
	if st.quick(c) {
		yes(st)
		return nil
	}
	if st.quick(tNot(c)) {
		no(st)
		return nil
	}
	fs := st.facts()
	if x.noSat > 0 {
		// the paths are joined again: whether each is feasible does not matter
		o := st.clone()
		st.assume(c)
		yes(st)
		o.assume(tNot(c))
		no(o)
		return []*State{o}
	}
	y := x.sol.check(append(fs[:len(fs):len(fs)], c), false)
	n := Sat
	if y != Unsat {
		n = x.sol.check(append(fs[:len(fs):len(fs)], tNot(c)), false)
	}
	switch {
	case y == Unsat:
		st.assume(tNot(c))
		no(st)
		return nil
	case n == Unsat:
		st.assume(c)
		yes(st)
		return nil
	}
	o := st.clone()
	st.assume(c)
	yes(st)
	o.assume(tNot(c))
	no(o)
	return []*State{o}
}

// enter transfers control to block b of the top frame
func (x *Exec) enter(st *State, b *ssa.BasicBlock) {
	f := st.top()
	from := f.block
	depth := len(st.frames) - 1
	// phis
	var pi int
	for k, p := range b.Preds {
		if p == from {
			pi = k
			break
		}
	}
	var vals []Value
	ip := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, st.get(ph.Edges[pi]))
		ip++
	}
	for k := range vals {
		f.env[b.Instrs[k].(*ssa.Phi)] = vals[k]
	}
	f.prev, f.block, f.ip = from, b, ip
	if x.sample > 0 {
		if x.seen == nil {
			x.seen = map[*ssa.BasicBlock]int{}
		}
		x.seen[b]++
	}
	if n := len(st.watch); n > 0 {
		w := st.watch[n-1]
		if w.depth == depth {
			if b == w.header {
				st.ev = evBack
				return
			}
			if !w.blocks[b] {
				st.watch = st.watch[:n-1]
				st.ev = evExit
				if lp := x.w.loops(f.fn)[b]; lp != nil && f.unroll[b] == 0 {
					// leaving straight into another loop head: resume decides
				}
				return
			}
		}
	}
	x.atHead(st)
}

// atHead decides whether the block just entered is a loop head to cut at
func (x *Exec) atHead(st *State) {
	f := st.top()
	b := f.block
	lp := x.w.loops(f.fn)[b]
	if lp == nil {
		return
	}
	if lp[f.prev] { // back edge of an unrolled loop
		if f.unroll[b] > 0 {
			f.unroll[b]++
			if f.unroll[b] > 70 {
				panic(unsupported("unrolling limit in " + f.fn.String()))
			}
			return
		}
	}
	if x.unrollable(st, f, b, lp) {
		if f.unroll == nil {
			f.unroll = map[*ssa.BasicBlock]int{}
		}
		f.unroll[b] = 1
		return
	}
	st.ev = evHead
}

// unrollable: loops that shift a value towards 0, or with constant trip counts
func (x *Exec) unrollable(st *State, f *Frame, h *ssa.BasicBlock, lp map[*ssa.BasicBlock]bool) bool {
	// any exit condition of the loop
	for b := range lp {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || (lp[b.Succs[0]] && lp[b.Succs[1]]) {
			continue
		}
		if b != h && !(len(h.Instrs) > 0 && lp[b]) {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch cmp.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
		default:
			continue
		}
		for k, side := range []ssa.Value{cmp.X, cmp.Y} {
			other := cmp.Y
			if k == 1 {
				other = cmp.X
			}
			ph := phiOf(side, h)
			if ph == nil {
				continue
			}
			for e, pred := range h.Preds {
				if !lp[pred] {
					continue
				}
				up, ok := ph.Edges[e].(*ssa.BinOp)
				if !ok || phiOf(up.X, h) != ph {
					continue
				}
				cst, ok := up.Y.(*ssa.Const)
				if !ok {
					continue
				}
				_ = cst
				if up.Op == token.SHR || up.Op == token.QUO {
					return true
				}
				// bound
				var bound Value
				func() {
					defer func() { recover() }()
					bound = st.getIn(f, other)
				}()
				bt, ok := bound.(*Term)
				if !ok {
					continue
				}
				cur, ok := f.env[ph].(*Term)
				if !ok {
					continue
				}
				if up.Op == token.SUB && bt.isConst() && umax(cur) <= 64 {
					return true
				}
				if up.Op == token.SUB && bt.isConst() && st.prove(tUle(cur, bv(cur.w, 24))) {
					return true
				}
				if up.Op == token.ADD && cur.isConst() && bt.isConst() && bt.c-cur.c <= 64 {
					return true
				}
			}
		}
	}
	return false
}

func phiOf(v ssa.Value, h *ssa.BasicBlock) *ssa.Phi {
	for {
		switch y := v.(type) {
		case *ssa.Phi:
			if y.Block() == h {
				return y
			}
			return nil
		case *ssa.Convert:
			v = y.X
		case *ssa.ChangeType:
			v = y.X
		case *ssa.BinOp:
			// i+1 < n style (range loops)
			if _, ok := y.Y.(*ssa.Const); ok && (y.Op == token.ADD || y.Op == token.SUB) {
				v = y.X
				continue
			}
			return nil
		default:
			return nil
		}
	}
}

func (st *State) get(v ssa.Value) Value { return st.getIn(st.top(), v) }

func (st *State) getIn(f *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return constValue(c)
	case *ssa.Function:
		return FuncV{fn: c, nilF: tFls, typ: c.Type()}
	case *ssa.Global:
		return PtrV{kind: pkObj, obj: st.globalObj(c)}
	case *ssa.Builtin:
		return c
	}
	r, ok := f.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s = %v in %s", v.Name(), v, f.fn)))
	}
	return r
}

func (st *State) globalObj(g *ssa.Global) *Obj {
	if o, ok := st.globals[g]; ok {
		st.errGlobal(g, o)
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o, ok := st.x.w.globObj[g]
	if !ok {
		st.x.objN++
		o = &Obj{id: 1000000 + len(st.x.w.globObj), name: "glob:" + g.String(), typ: t}
		st.x.w.globObj[g] = o
	}
	st.globals[g] = o
	if _, ok := st.objs[o]; !ok {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
					st.objs[o] = OpaqueV{t, mkVar(o.name, 64)}
				}
			}()
			st.objs[o] = st.symValue(o.name, t)
		}()
	}
	st.errGlobal(g, o)
	return o
}

// errGlobal assumes that an error variable whose value is not known is set
func (st *State) errGlobal(g *ssa.Global, o *Obj) {
	if v, ok := st.objs[o].(IfaceV); ok && v.tag.op == OpVar && strings.HasPrefix(v.tag.name, o.name) && strings.HasPrefix(strings.ToLower(g.Name()), "err") {
		st.assume(tNe(v.tag, i64(0)))
		st.x.trust("package-level error variables are non-nil")
	}
}

// symValue builds an unconstrained value of type t
func (st *State) symValue(name string, t types.Type) Value {
	cs := compsOf(t)
	ts := make([]*Term, len(cs))
	for i, c := range cs {
		ts[i] = mkVar(fmt.Sprintf("%s%s.w%d", name, c.suffix, c.w), c.w)
	}
	v := unflatten(ts, t, isRawish(t), st.raw, name, nil)
	st.wellFormed(v)
	return v
}

func isRawish(t types.Type) bool { return false }

// wellFormed assumes what every Go value satisfies
func (st *State) wellFormed(v Value) {
	switch s := v.(type) {
	case SliceV:
		st.assume(tUle(s.n, s.cap))
		if !s.cap.isConst() {
			st.assume(tUlt(s.cap, i64(int64(lenMax))))
		}
	case StrV:
		if !s.n.isConst() {
			st.assume(tUlt(s.n, i64(int64(lenMax))))
		}
	case StructV:
		for _, e := range s.f {
			st.wellFormed(e)
		}
	case ArrV:
		for _, e := range s.e {
			st.wellFormed(e)
		}
	}
}

// ---------- memory access ----------

func (st *State) load(p PtrV, t types.Type) Value {
	switch p.kind {
	case pkRaw:
		if v, ok := st.raw.exact(p.addr, t); ok {
			return v
		}
		cs := compsOf(t)
		ts := make([]*Term, len(cs))
		for i, c := range cs {
			ts[i] = st.raw.load(tAdd(p.addr, i64(c.off)), c.w, st)
		}
		v := unflatten(ts, t, true, st.raw, "", nil)
		if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Bool {
			st.assume(tUle(ts[0], bv(8, 1)))
			st.x.trust("a bool in memory is 0 or 1")
		}
		st.wellFormed(v)
		return v
	case pkHeap:
		if strings.HasPrefix(p.region, "!atomic") {
			panic(unsupported("plain load of an atomic"))
		}
		cs := compsOf(t)
		ts := make([]*Term, len(cs))
		keys := append([]*Term{p.addr}, p.idx...)
		for i, c := range cs {
			n := strings.TrimPrefix(p.region, "!") + c.suffix
			ts[i] = st.heapMem(n).load(n, c.w, keys, st)
		}
		if len(ts) == 1 && isRawPtrType(t) && st.x.w.scratch(p.region) {
			st.x.trust("the pointer " + p.region + " leads to memory private to its owner")
			return PtrV{kind: pkRaw, addr: mkUF("scratch:"+p.region, 64, keys...)}
		}
		v := unflatten(ts, t, false, nil, strings.TrimPrefix(p.region, "!"), []Value{PtrV{kind: pkHeap, addr: p.addr, idx: p.idx, region: baseRegion(p.region)}})
		st.wellFormed(v)
		return v
	case pkObj:
		v, ok := st.objs[p.obj]
		if !ok {
			panic(unsupported("load from unknown object " + p.obj.name))
		}
		for _, i := range p.path {
			switch s := v.(type) {
			case StructV:
				v = s.f[i]
			case ArrV:
				v = s.e[i]
			default:
				panic(unsupported(fmt.Sprintf("load through %T", v)))
			}
		}
		if o, ok := v.(OpaqueV); ok {
			_ = o
			if _, isS := under(t).(*types.Struct); !isS {
				panic(unsupported("load of opaque object " + p.obj.name))
			}
		}
		return v
	case pkBuf:
		b := st.bufs[p.buf]
		cs := b.content.at(p.off)
		bw := compWidths(t)
		if p.sub != nil {
			cs = cs[p.sub[0] : p.sub[0]+p.sub[1]]
		}
		if len(cs) != len(bw) {
			// a component of a struct element
			panic(unsupported("partial buffer element load"))
		}
		v := unflatten(cs, t, false, nil, "", nil)
		st.wellFormed(v)
		return v
	}
	panic("load")
}

func baseRegion(r string) string {
	r = strings.TrimPrefix(r, "!")
	// region names are pkg.Type.field; the struct is what holds the field
	if i := strings.LastIndexByte(r, '.'); i > strings.IndexByte(r, '.') {
		return r[:i]
	}
	return r
}

func (st *State) heapMem(n string) *HeapMem {
	h, ok := st.heap[n]
	if !ok {
		h = &HeapMem{ver: st.heapVer}
		st.heap[n] = h
	}
	return h
}

func (st *State) store(p PtrV, t types.Type, v Value) {
	switch p.kind {
	case pkRaw:
		st.raw = st.raw.with(rawStore{addr: p.addr, size: sizes.Sizeof(t), typ: t, val: v})
	case pkHeap:
		cs := compsOf(t)
		ts := flatten(v, t)
		keys := append([]*Term{p.addr}, p.idx...)
		for i, c := range cs {
			n := strings.TrimPrefix(p.region, "!") + c.suffix
			h := st.heapMem(n)
			st.heap[n] = &HeapMem{ver: h.ver, log: append(append([]heapStore{}, h.log...), heapStore{keys, ts[i]})}
		}
	case pkObj:
		if len(p.path) > 0 {
			if _, isop := st.objs[p.obj].(OpaqueV); isop {
				panic(unsupported("store into opaque object"))
			}
		}
		st.objs[p.obj] = setPath(st.objs[p.obj], p.path, v)
	case pkBuf:
		b := st.bufs[p.buf]
		es := flatten(v, t)
		if p.sub != nil {
			all := append([]*Term{}, b.content.at(p.off)...)
			if len(es) != p.sub[1] {
				panic(unsupported("partial buffer element store"))
			}
			copy(all[p.sub[0]:], es)
			es = all
		}
		if len(es) != len(b.content.ws) {
			panic(unsupported("partial buffer element store"))
		}
		nc := spliceSeq(st, b.content, p.off, mkSeq(b.content.ws, Seg{kind: sgElems, elems: [][]*Term{es}, n: i64(1)}))
		st.setBuf(p.buf, nc, p.off, i64(1))
	default:
		panic("store")
	}
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch s := v.(type) {
	case StructV:
		f := append([]Value{}, s.f...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return StructV{s.typ, f}
	case ArrV:
		f := append([]Value{}, s.e...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return ArrV{s.elem, f}
	}
	panic(unsupported(fmt.Sprintf("store through %T", v)))
}

// setBuf changes elements [off, off+n) of a buffer to give content c; other
// buffers which may share its array lose what is known about them there
func (st *State) setBuf(id int, c *Seq, off, n *Term) {
	b := st.bufs[id]
	b.content = c
	st.bufs[id] = b
	for k, o := range st.bufs {
		if k != id && o.group == b.group {
			lo := tSub(tAdd(off, b.at()), o.at())
			o.content = st.clobberRange(o.content, lo, tAdd(lo, n))
			st.bufs[k] = o
		}
	}
}

// clobberRange forgets what c holds in [lo, hi)
func (st *State) clobberRange(c *Seq, lo, hi *Term) *Seq {
	r := st.clobberAfter(c, lo)
	if r == c || !leq(st, hi, c.n) {
		return r
	}
	kept := st.keptBefore(r)
	if !leq(st, kept, hi) {
		return r
	}
	return catSeq(sliceSeq(st, r, i64(0), kept), opaqueSeq("clob", c.ws, tSub(hi, kept)), sliceSeq(st, c, hi, tSub(c.n, hi)))
}

// keptBefore is the length of the part of r before the trailing forgotten piece
func (st *State) keptBefore(r *Seq) *Term {
	k := i64(0)
	for i, g := range r.segs {
		if i == len(r.segs)-1 {
			break
		}
		k = tAdd(k, g.n)
	}
	return k
}

// clobberGroup: whatever lies behind element at of buffer from (in every
// buffer sharing its array, except id) is lost
func (st *State) clobberGroup(from BufC, at *Term, id int) {
	for k, o := range st.bufs {
		if k != id && o.group == from.group {
			o.content = st.clobberAfter(o.content, tSub(tAdd(at, from.at()), o.at()))
			st.bufs[k] = o
		}
	}
}

func opaqueSeq(name string, ws []int, n *Term) *Seq {
	nm := freshName(name)
	src := &Src{name: nm, key: nm}
	return mkSeq(ws, Seg{kind: sgSub, src: src, off: i64(0), n: n})
}

// sliceSeq is content[off, off+n)
func sliceSeq(st *State, c *Seq, off, n *Term) *Seq {
	if off.isC(0) && n == c.n {
		return c
	}
	if n.isC(0) {
		return emptySeq(c.ws)
	}
	if len(c.segs) == 1 {
		// the bounds are the caller's business
		switch c.segs[0].kind {
		case sgSub, sgSeq, sgFill:
			return mkSeq(c.ws, subSeg(c.segs[0], off, n, c.ws))
		}
	}
	end := tAdd(off, n)
	// exact segment boundaries
	r := emptySeq(c.ws)
	pos := i64(0)
	started := false
	for _, g := range c.segs {
		ge := tAdd(pos, g.n)
		if !started {
			if pos == off || (st != nil && !g.n.isConst() && false) {
				started = true
			} else {
				// does the slice start inside this segment?
				d := tSub(off, pos)
				if !d.isConst() && leq(st, d, g.n) && leq(st, n, tSub(g.n, d)) {
					return mkSeq(c.ws, subSeg(g, d, n, c.ws))
				}
				if inSeg(st, d, g.n) {
					// partial start
					rest := tSub(g.n, d)
					if leq(st, n, rest) {
						return mkSeq(c.ws, subSeg(g, d, n, c.ws))
					}
					if leq(st, rest, n) {
						r.push(subSeg(g, d, rest, c.ws))
						pos = ge
						started = true
						continue
					}
					return mkSeq(c.ws, Seg{kind: sgSeq, seq: c, off: off, n: n})
				}
				if leq(st, g.n, d) {
					pos = ge
					continue
				}
				return mkSeq(c.ws, Seg{kind: sgSeq, seq: c, off: off, n: n})
			}
		}
		left := tSub(end, pos)
		if left.isC(0) {
			return r
		}
		if leq(st, g.n, left) {
			r.push(g)
			pos = ge
			continue
		}
		if leq(st, left, g.n) {
			r.push(subSeg(g, i64(0), left, c.ws))
			return r
		}
		done := r.n
		r.push(Seg{kind: sgSeq, seq: c, off: tAdd(off, done), n: tSub(n, done)})
		return r
	}
	if started && r.n == n {
		return r
	}
	return mkSeq(c.ws, Seg{kind: sgSeq, seq: c, off: off, n: n})
}

func inSeg(st *State, d, n *Term) bool { // 0 <= d < n
	if d.isConst() && n.isConst() {
		return d.c < n.c
	}
	return st != nil && st.prove(tUlt(d, n))
}

func leq(st *State, a, b *Term) bool { // both below 2^62
	if a == b {
		return true
	}
	if a.isConst() && b.isConst() {
		return a.c <= b.c
	}
	if st == nil {
		return false
	}
	g := tAnd(tUle(a, b), tUlt(b, bv(64, 1<<62)))
	switch st.known(g) {
	case 1:
		return true
	case 0:
		return st.quick(g)
	}
	return st.prove(g)
}

func subSeg(g Seg, off, n *Term, ws []int) Seg {
	if off.isC(0) && n == g.n {
		return g
	}
	switch g.kind {
	case sgElems:
		if off.isConst() && n.isConst() {
			return Seg{kind: sgElems, elems: g.elems[off.c : off.c+n.c], n: n}
		}
	case sgSub:
		return Seg{kind: sgSub, src: g.src, off: tAdd(g.off, off), n: n}
	case sgSeq:
		return Seg{kind: sgSeq, seq: g.seq, off: tAdd(g.off, off), n: n}
	case sgFill:
		return Seg{kind: sgFill, elems: g.elems, n: n}
	}
	return Seg{kind: sgSeq, seq: mkSeq(ws, g), off: off, n: n}
}

// spliceSeq replaces c[off, off+len(x)) by x
func spliceSeq(st *State, c *Seq, off *Term, x *Seq) *Seq {
	end := tAdd(off, x.n)
	return catSeq(sliceSeq(st, c, i64(0), off), x, sliceSeq(st, c, end, tSub(c.n, end)))
}

// sliceContent is the sequence of elements of s
func (st *State) sliceContent(s SliceV) *Seq {
	ws := compWidths(s.elem)
	if s.n.isC(0) {
		return emptySeq(ws)
	}
	switch s.kind {
	case pkRaw:
		src := rawSrc(st.raw, s.addr, int(sizes.Sizeof(s.elem)), s.elem)
		return mkSeq(ws, Seg{kind: sgSub, src: src, off: i64(0), n: s.n})
	case pkHeap:
		// typed heap slice: a source named by the region version
		r := "[]" + regionOf(s.elem)
		cs := compsOf(s.elem)
		k := r
		for _, c := range cs {
			h := st.heapMem(r + c.suffix)
			if len(h.log) > 0 {
				panic(unsupported("content of a modified heap slice"))
			}
			k += h.ver
		}
		src := &Src{name: "", key: fmt.Sprintf("heap{%s}%d", k, s.addr.id)}
		src.args = []*Term{s.addr}
		src.name = r + cs[0].suffix + "/" + st.heapMem(r+cs[0].suffix).ver
		if len(cs) > 1 {
			src.name = "elems{" + timed(internKey(k), nameTime(k)) + "}"
		}
		return mkSeq(ws, Seg{kind: sgSub, src: src, off: s.off, n: s.n})
	}
	return sliceSeq(st, st.bufs[s.buf].content, s.off, s.n)
}

func (st *State) bufSlice(elem types.Type, content *Seq) SliceV {
	cp := freshVar("cap", 64)
	st.assume(tUle(content.n, cp))
	st.assume(tUlt(cp, i64(int64(lenMax))))
	// what lies between len and cap is unknown
	full := catSeq(content, opaqueSeq("spare", content.ws, tSub(cp, content.n)))
	id := st.newBuf(full, cp, 0)
	return SliceV{elem: elem, kind: pkBuf, buf: id, off: i64(0), n: content.n, cap: cp, isnil: tFls}
}

// appendSeq implements append
func (st *State) appendSeq(s SliceV, add *Seq) SliceV {
	if add.n.isC(0) {
		return s
	}
	if s.kind == pkBuf {
		nn := tAdd(s.n, add.n)
		b := st.bufs[s.buf]
		if st.prove(tUle(nn, s.cap)) {
			st.setBuf(s.buf, spliceSeq(st, b.content, tAdd(s.off, s.n), add), tAdd(s.off, s.n), add.n)
			r := s
			r.n = nn
			r.isnil = tFls
			return r
		}
		if st.prove(tUlt(s.cap, nn)) {
			// certainly a new array
			r := st.bufSlice(s.elem, catSeq(sliceSeq(st, b.content, s.off, s.n), add))
			st.noOverflow(r.n)
			return r
		}
		return st.regrowWith(s, add)
	}
	// raw / heap slices: the spare capacity belongs to the slice alone
	if !(s.n.isC(0) && s.cap.isC(0)) {
		st.x.trust("the spare capacity of a slice held by the message is not shared with other live data")
	}
	r := st.bufSlice(s.elem, catSeq(st.sliceContent(s), add))
	st.noOverflow(r.n)
	return r
}

func (st *State) regrow(s SliceV) SliceV {
	if s.kind != pkBuf {
		panic(unsupported("vc.Regrow of a slice in memory"))
	}
	return st.regrowWith(s, emptySeq(compWidths(s.elem)))
}

// regrowWith is s followed by add, in the same array or a new one
func (st *State) regrowWith(s SliceV, add *Seq) SliceV {
	{
		b := st.bufs[s.buf]
		old := sliceSeq(st, b.content, s.off, s.n)
		r := st.bufSlice(s.elem, catSeq(old, add))
		st.noOverflow(r.n)
		// possibly in place: everything behind s in the shared array is lost
		rb := st.bufs[r.buf]
		rb.group = b.group
		rb.base = tAdd(b.at(), s.off)
		st.bufs[r.buf] = rb
		st.clobberGroup(b, tAdd(s.off, s.n), r.buf)
		return r
	}
}

func (st *State) noOverflow(n *Term) {
	st.assume(tUlt(n, i64(int64(lenMax))))
}

// clobberAfter forgets what c holds from element at on
func (st *State) clobberAfter(c *Seq, at *Term) *Seq {
	if at == c.n || leq(st, c.n, at) {
		return c
	}
	if leq(st, at, c.n) {
		return catSeq(sliceSeq(st, c, i64(0), at), opaqueSeq("clob", c.ws, tSub(c.n, at)))
	}
	// keep the leading pieces which certainly end before at
	keep := emptySeq(c.ws)
	for _, g := range c.segs {
		if !leq(st, tAdd(keep.n, g.n), at) {
			break
		}
		keep.push(g)
	}
	return catSeq(keep, opaqueSeq("clob", c.ws, tSub(c.n, keep.n)))
}

// ---------- instructions ----------

func (x *Exec) instr(st *State, f *Frame, in ssa.Instruction) []*State {
	switch i := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		o := st.newObj(i.Comment, t, nil)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
					st.objs[o] = OpaqueV{t, freshVar("opaque", 64)}
				}
			}()
			st.objs[o] = zeroValue(t)
		}()
		f.env[i] = PtrV{kind: pkObj, obj: o}
	case *ssa.BinOp:
		f.env[i] = x.binop(st, i)
	case *ssa.UnOp:
		return x.unop(st, f, i)
	case *ssa.Call:
		return x.call(st, f, i)
	case *ssa.ChangeInterface:
		f.env[i] = st.get(i.X)
	case *ssa.ChangeType:
		f.env[i] = retype(st.get(i.X), i.Type())
	case *ssa.Convert:
		f.env[i] = x.convert(st, st.get(i.X), i.X.Type(), i.Type())
	case *ssa.Extract:
		f.env[i] = st.get(i.Tuple).(TupleV)[i.Index]
	case *ssa.Field:
		v := st.get(i.X)
		s, ok := v.(StructV)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T", v)))
		}
		f.env[i] = s.f[i.Field]
	case *ssa.FieldAddr:
		p := x.asPtr(st.get(i.X))
		stt := under(i.X.Type().(*types.Pointer).Elem()).(*types.Struct)
		f.env[i] = x.fieldAddr(st, p, i.X.Type().(*types.Pointer).Elem(), stt, i.Field)
	case *ssa.IndexAddr:
		f.env[i] = x.indexAddr(st, st.get(i.X), i.X.Type(), st.get(i.Index).(*Term), i.Index.Type(), x.pos(i.Pos()))
	case *ssa.Index:
		f.env[i] = x.index(st, st.get(i.X), st.get(i.Index).(*Term), i.Index.Type(), x.pos(i.Pos()))
	case *ssa.Lookup:
		return x.lookup(st, f, i)
	case *ssa.MakeClosure:
		fv := FuncV{fn: i.Fn.(*ssa.Function), nilF: tFls, typ: i.Type()}
		for _, b := range i.Bindings {
			fv.bind = append(fv.bind, st.get(b))
		}
		f.env[i] = fv
	case *ssa.MakeInterface:
		f.env[i] = x.makeIface(st.get(i.X), i.X.Type())
	case *ssa.MakeMap:
		mt := under(i.Type()).(*types.Map)
		f.env[i] = x.makeMap(st, mt)
	case *ssa.MakeSlice:
		et := under(i.Type()).(*types.Slice).Elem()
		n := x.toInt(st.get(i.Len).(*Term), i.Len.Type())
		c := x.toInt(st.get(i.Cap).(*Term), i.Cap.Type())
		x.oblige(st, "makeslice", x.pos(i.Pos()), tAnd(tSle(i64(0), n), tSle(n, c)))
		st.assume(tUlt(c, i64(int64(lenMax)))) // larger requests panic or fail in the allocator
		ws := compWidths(et)
		z := flatten(zeroValue(et), et)
		content := mkSeq(ws, Seg{kind: sgFill, elems: [][]*Term{z}, n: c})
		id := st.newBuf(content, c, 0)
		f.env[i] = SliceV{elem: et, kind: pkBuf, buf: id, off: i64(0), n: n, cap: c, isnil: tFls}
	case *ssa.MapUpdate:
		x.mapUpdate(st, st.get(i.Map), st.get(i.Key), i.Key.Type(), st.get(i.Value), i.Value.Type())
	case *ssa.Next:
		return x.next(st, f, i)
	case *ssa.Range:
		v := st.get(i.X)
		o := st.newObj("iter", types.Typ[types.Int], i64(0))
		switch m := v.(type) {
		case MapV:
			f.env[i] = IterV{obj: o, m: m}
			if m.obj == nil && clearLoop(i) {
				st.mlog = append(st.mlog, mapStore{ref: m.ref, clr: true})
				f.env[i] = IterV{obj: o, m: m, none: true}
			}
		case StrV:
			f.env[i] = IterV{obj: o, str: &m}
		default:
			panic(unsupported(fmt.Sprintf("range over %T", v)))
		}
	case *ssa.Slice:
		f.env[i] = x.slice(st, i)
	case *ssa.Store:
		v := st.get(i.Val)
		st.store(x.asPtr(st.get(i.Addr)), i.Val.Type(), v)
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, i)
	case *ssa.Defer:
		f.defers = append(f.defers, i)
	case *ssa.RunDefers:
		for k := len(f.defers) - 1; k >= 0; k-- {
			if c := f.defers[k].Call.StaticCallee(); c == nil || !noEffect(c) {
				panic(unsupported("defer of " + f.defers[k].Call.String()))
			}
		}
	case *ssa.Phi:
		panic("phi")
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return nil
}

func noEffect(c *ssa.Function) bool {
	s := c.String()
	return strings.HasPrefix(s, "(*sync.") || strings.HasPrefix(s, "(*sync/atomic")
}

func retype(v Value, t types.Type) Value {
	switch s := v.(type) {
	case FuncV:
		s.typ = t
		return s
	case PtrV:
		return s
	case SliceV:
		return s
	}
	return v
}

func (x *Exec) asPtr(v Value) PtrV {
	switch p := v.(type) {
	case PtrV:
		return p
	case *Term:
		return PtrV{kind: pkRaw, addr: p}
	}
	panic(unsupported(fmt.Sprintf("pointer expected, have %T", v)))
}

func (x *Exec) toInt(t *Term, ty types.Type) *Term {
	_, sg, _ := basicWidth(ty)
	if sg {
		return tSext(t, 64)
	}
	return tZext(t, 64)
}

func fieldOffset(s *types.Struct, i int) int64 {
	var fs []*types.Var
	for k := 0; k < s.NumFields(); k++ {
		fs = append(fs, s.Field(k))
	}
	return sizes.Offsetsof(fs)[i]
}

func (x *Exec) fieldAddr(st *State, p PtrV, pt types.Type, s *types.Struct, i int) PtrV {
	switch p.kind {
	case pkRaw:
		return PtrV{kind: pkRaw, addr: tAdd(p.addr, i64(fieldOffset(s, i)))}
	case pkHeap:
		x.typeInv(st, p)
		return PtrV{kind: pkHeap, addr: p.addr, idx: p.idx, region: "!" + strings.TrimPrefix(p.region, "!") + "." + s.Field(i).Name()}
	case pkObj:
		return PtrV{kind: pkObj, obj: p.obj, path: append(append([]int{}, p.path...), i)}
	case pkBuf:
		lo := 0
		if p.sub != nil {
			lo = p.sub[0]
		}
		for k := 0; k < i; k++ {
			lo += len(compsOf(s.Field(k).Type()))
		}
		return PtrV{kind: pkBuf, buf: p.buf, off: p.off, sub: []int{lo, len(compsOf(s.Field(i).Type()))}}
	}
	panic("fieldAddr")
}

func (x *Exec) indexAddr(st *State, v Value, t types.Type, idx *Term, it types.Type, pos string) Value {
	i := x.toInt(idx, it)
	switch s := v.(type) {
	case SliceV:
		x.oblige(st, "index", pos, tUlt(i, s.n))
		switch s.kind {
		case pkRaw:
			return PtrV{kind: pkRaw, addr: tAdd(s.addr, tMul(i, i64(sizes.Sizeof(s.elem))))}
		case pkHeap:
			return PtrV{kind: pkHeap, addr: s.addr, region: "[]" + regionOf(s.elem), idx: []*Term{tAdd(s.off, i)}}
		}
		return PtrV{kind: pkBuf, buf: s.buf, off: tAdd(s.off, i)}
	case PtrV:
		at := under(t.(*types.Pointer).Elem()).(*types.Array)
		x.oblige(st, "index", pos, tUlt(i, i64(at.Len())))
		switch s.kind {
		case pkRaw:
			return PtrV{kind: pkRaw, addr: tAdd(s.addr, tMul(i, i64(sizes.Sizeof(at.Elem()))))}
		case pkHeap:
			return PtrV{kind: pkHeap, addr: s.addr, region: s.region + "[]", idx: append(append([]*Term{}, s.idx...), i)}
		case pkObj:
			if i.isConst() {
				return PtrV{kind: pkObj, obj: s.obj, path: append(append([]int{}, s.path...), int(i.c))}
			}
		}
	}
	panic(unsupported(fmt.Sprintf("index address of %T", v)))
}

func (x *Exec) index(st *State, v Value, idx *Term, it types.Type, pos string) Value {
	i := x.toInt(idx, it)
	switch s := v.(type) {
	case StrV:
		x.oblige(st, "index", pos, tUlt(i, s.n))
		return s.content().at(i)[0]
	case ArrV:
		x.oblige(st, "index", pos, tUlt(i, i64(int64(len(s.e)))))
		if i.isConst() {
			return s.e[i.c]
		}
	}
	panic(unsupported(fmt.Sprintf("index of %T", v)))
}

func (x *Exec) slice(st *State, i *ssa.Slice) Value {
	v := st.get(i.X)
	lo := i64(0)
	if i.Low != nil {
		lo = x.toInt(st.get(i.Low).(*Term), i.Low.Type())
	}
	pos := x.pos(i.Pos())
	switch s := v.(type) {
	case StrV:
		hi := s.n
		if i.High != nil {
			hi = x.toInt(st.get(i.High).(*Term), i.High.Type())
		}
		x.oblige(st, "slice", pos, tAnd(tUle(lo, hi), tUle(hi, s.n)))
		return substr(st, s, lo, hi)
	case SliceV:
		hi, mx := s.n, s.cap
		if i.High != nil {
			hi = x.toInt(st.get(i.High).(*Term), i.High.Type())
		}
		if i.Max != nil {
			mx = x.toInt(st.get(i.Max).(*Term), i.Max.Type())
		}
		g := tAnd(tUle(lo, hi), tUle(hi, mx))
		if i.Max != nil {
			g = tAnd(g, tUle(mx, s.cap))
		}
		x.oblige(st, "slice", pos, g)
		r := s
		r.n = tSub(hi, lo)
		r.cap = tSub(mx, lo)
		switch s.kind {
		case pkRaw:
			r.addr = tAdd(s.addr, tMul(lo, i64(sizes.Sizeof(s.elem))))
		default:
			r.off = tAdd(s.off, lo)
		}
		return r
	case PtrV: // pointer to array
		at := under(i.X.Type().(*types.Pointer).Elem()).(*types.Array)
		hi := i64(at.Len())
		if i.High != nil {
			hi = x.toInt(st.get(i.High).(*Term), i.High.Type())
		}
		if s.kind == pkObj {
			// the array object becomes a buffer (used for composite literals and varargs)
			if _, op := st.objs[s.obj].(OpaqueV); op && s.obj.name == "makeslice" && len(s.path) == 0 {
				// make with a constant capacity
				z := flatten(zeroValue(at.Elem()), at.Elem())
				id := st.newBuf(mkSeq(compWidths(at.Elem()), Seg{kind: sgFill, elems: [][]*Term{z}, n: i64(at.Len())}), i64(at.Len()), 0)
				x.oblige(st, "slice", pos, tAnd(tUle(lo, hi), tUle(hi, i64(at.Len()))))
				return SliceV{elem: at.Elem(), kind: pkBuf, buf: id, off: lo, n: tSub(hi, lo), cap: tSub(i64(at.Len()), lo), isnil: tFls}
			}
			av, ok := st.load(s, i.X.Type()).(ArrV)
			if !ok {
				panic(unsupported("slice of an opaque array"))
			}
			ws := compWidths(at.Elem())
			if at.Len() == 0 {
				// all empty allocations share one (never written) buffer
				key := at.Elem().String()
				id, ok := x.zeroBufs[key]
				if !ok {
					id = st.newBuf(emptySeq(ws), i64(0), 0)
					x.zeroBufs[key] = id
				}
				if _, ok := st.bufs[id]; !ok {
					st.bufs[id] = BufC{content: emptySeq(ws), cap: i64(0), group: id}
				}
				x.oblige(st, "slice", pos, tAnd(tUle(lo, hi), tUle(hi, i64(0))))
				return SliceV{elem: at.Elem(), kind: pkBuf, buf: id, off: lo, n: tSub(hi, lo), cap: tSub(i64(0), lo), isnil: tFls}
			}
			var es [][]*Term
			for _, e := range av.e {
				es = append(es, flatten(e, at.Elem()))
			}
			seq := emptySeq(ws)
			if len(es) > 0 {
				seq.push(Seg{kind: sgElems, elems: es, n: i64(int64(len(es)))})
			}
			id := st.newBuf(seq, i64(at.Len()), 0)
			x.oblige(st, "slice", pos, tAnd(tUle(lo, hi), tUle(hi, i64(at.Len()))))
			return SliceV{elem: at.Elem(), kind: pkBuf, buf: id, off: lo, n: tSub(hi, lo), cap: tSub(i64(at.Len()), lo), isnil: tFls}
		}
		if s.kind == pkRaw {
			x.oblige(st, "slice", pos, tAnd(tUle(lo, hi), tUle(hi, i64(at.Len()))))
			return SliceV{elem: at.Elem(), kind: pkRaw, addr: tAdd(s.addr, tMul(lo, i64(sizes.Sizeof(at.Elem())))), off: i64(0), n: tSub(hi, lo), cap: tSub(i64(at.Len()), lo), isnil: tFls}
		}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

func substr(st *State, s StrV, lo, hi *Term) StrV {
	if lo.isC(0) && hi == s.n {
		return s
	}
	if s.lit != nil && lo.isConst() && hi.isConst() {
		return strLit((*s.lit)[lo.c:hi.c])
	}
	n := tSub(hi, lo)
	return StrV{id: mkUF("substr", 64, s.id, lo, n), n: n, seq: sliceSeq(st, s.content(), lo, n)}
}

func (x *Exec) makeIface(v Value, t types.Type) Value {
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return IfaceV{tag: i64(0), data: i64(0)}
	}
	r := IfaceV{tag: typeTag(t), val: v, typ: t}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); !ok {
					panic(e)
				}
			}
		}()
		fl := flatten(v, t)
		if len(fl) == 1 && fl[0].w <= 64 {
			r.data = tZext(fl[0], 64)
		} else {
			args := fl
			r.data = mkUF(fmt.Sprintf("box:%s", regionOf(t)), 64, args...)
			boxed[r.data.id] = v
		}
	}()
	return r
}

var typeTags = map[string]int{}
var tagTypes = []types.Type{nil}

// boxed: the values in interfaces which do not fit a word
var boxed = map[int]Value{}

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	n, ok := typeTags[k]
	if !ok {
		n = len(typeTags) + 1
		typeTags[k] = n
		tagTypes = append(tagTypes, t)
	}
	return i64(int64(n))
}

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) []*State {
	v, ok := st.get(i.X).(IfaceV)
	if !ok {
		panic(unsupported("type assertion on a non-interface value"))
	}
	if types.IsInterface(i.AssertedType) {
		if i.CommaOk {
			panic(unsupported("interface to interface assertion"))
		}
		f.env[i] = v
		return nil
	}
	want := typeTag(i.AssertedType)
	var val Value
	if v.val != nil && v.typ != nil && types.Identical(v.typ, i.AssertedType) {
		val = v.val
	} else if v.tag.isConst() && v.tag != want {
		val = zeroValue(i.AssertedType)
	} else {
		cs := compsOf(i.AssertedType)
		if len(cs) == 1 {
			d := v.data
			if cs[0].w != 64 {
				d = tExtract(d, 0, cs[0].w)
			}
			val = unflatten([]*Term{d}, i.AssertedType, false, nil, "", nil)
		} else {
			ts := make([]*Term, len(cs))
			for k, c := range cs {
				ts[k] = mkUF("unbox"+c.suffix+fmt.Sprint(c.w), c.w, v.data)
			}
			val = unflatten(ts, i.AssertedType, false, nil, "", nil)
			st.wellFormed(val)
		}
	}
	okT := tEq(v.tag, want)
	if !i.CommaOk {
		x.oblige(st, "type-assertion", x.pos(i.Pos()), okT)
		f.env[i] = val
		return nil
	}
	return x.branch(st, okT, func(s *State) { s.top().env[i] = TupleV{val, tTrue} }, func(s *State) {
		s.top().env[i] = TupleV{zeroValue(i.AssertedType), tFls}
	})
}

// ---------- operators ----------

func (x *Exec) unop(st *State, f *Frame, i *ssa.UnOp) []*State {
	v := st.get(i.X)
	switch i.Op {
	case token.MUL:
		p := x.asPtr(v)
		f.env[i] = st.load(p, i.Type())
	case token.NOT:
		f.env[i] = tNot(v.(*Term))
	case token.SUB:
		if isFloat(i.Type()) {
			f.env[i] = mkUF(fmt.Sprintf("fneg%d", v.(*Term).w), v.(*Term).w, v.(*Term))
		} else {
			f.env[i] = tNeg(v.(*Term))
		}
	case token.XOR:
		f.env[i] = tBvNot(v.(*Term))
	default:
		panic(unsupported("unary " + i.Op.String()))
	}
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (x *Exec) binop(st *State, i *ssa.BinOp) Value {
	a, b := st.get(i.X), st.get(i.Y)
	switch i.Op {
	case token.EQL:
		return x.equal(st, a, b, i.X.Type())
	case token.NEQ:
		return tNot(x.equal(st, a, b, i.X.Type()))
	}
	if s, ok := a.(StrV); ok {
		t := b.(StrV)
		switch i.Op {
		case token.ADD:
			return concat(s, t)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			lt := func(a, b StrV) *Term {
				if a.lit != nil && b.lit != nil {
					return mkBool(*a.lit < *b.lit)
				}
				return tNe(mkUF("strlt", 8, a.id, b.id), bv(8, 0))
			}
			switch i.Op {
			case token.LSS:
				return lt(s, t)
			case token.GTR:
				return lt(t, s)
			case token.LEQ:
				return tNot(lt(t, s))
			default:
				return tNot(lt(s, t))
			}
		}
		panic(unsupported("string operator " + i.Op.String()))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		if pa, ok := a.(PtrV); ok {
			p = addrTerm(pa)
		}
		if pb, ok := b.(PtrV); ok {
			q = addrTerm(pb)
		}
	}
	if p == nil || q == nil {
		panic(unsupported(fmt.Sprintf("binary %s on %T and %T", i.Op, a, b)))
	}
	if isFloat(i.X.Type()) {
		return x.floatOp(i.Op, p, q)
	}
	_, sg, _ := basicWidth(i.X.Type())
	switch i.Op {
	case token.ADD:
		return tAdd(p, q)
	case token.SUB:
		return tSub(p, q)
	case token.MUL:
		return tMul(p, q)
	case token.QUO, token.REM:
		x.oblige(st, "division", x.pos(i.Pos()), tNe(q, bv(q.w, 0)))
		op := OpUDiv
		if sg {
			op = OpSDiv
			if st.prove(tAnd(tSle(bv(p.w, 0), p), tSle(bv(q.w, 0), q))) {
				op = OpUDiv
			}
		}
		if i.Op == token.REM {
			if op == OpSDiv {
				op = OpSRem
			} else {
				op = OpURem
			}
		}
		return tBin(op, p, q)
	case token.AND:
		if p.w == 0 {
			return tAnd(p, q)
		}
		return tBin(OpBvAnd, p, q)
	case token.OR:
		if p.w == 0 {
			return tOr(p, q)
		}
		return tBin(OpBvOr, p, q)
	case token.XOR:
		return tBin(OpBvXor, p, q)
	case token.AND_NOT:
		return tBin(OpBvAnd, p, tBvNot(q))
	case token.SHL, token.SHR:
		_, qs, _ := basicWidth(i.Y.Type())
		if qs && !q.isConst() {
			x.oblige(st, "shift", x.pos(i.Pos()), tSle(bv(q.w, 0), q))
		}
		var s *Term
		switch {
		case q.w == p.w:
			s = q
		case q.w < p.w:
			s = tZext(q, p.w)
		default:
			s = tIte(tUlt(q, bv(q.w, uint64(p.w))), tExtract(q, 0, p.w), bv(p.w, uint64(p.w)))
		}
		if i.Op == token.SHL {
			return tShift(OpShl, p, s)
		}
		if sg {
			return tShift(OpAshr, p, s)
		}
		return tShift(OpLshr, p, s)
	case token.LSS:
		if sg {
			return tSlt(p, q)
		}
		return tUlt(p, q)
	case token.LEQ:
		if sg {
			return tSle(p, q)
		}
		return tUle(p, q)
	case token.GTR:
		if sg {
			return tSlt(q, p)
		}
		return tUlt(q, p)
	case token.GEQ:
		if sg {
			return tSle(q, p)
		}
		return tUle(q, p)
	}
	panic(unsupported("binary " + i.Op.String()))
}

func (x *Exec) floatOp(op token.Token, p, q *Term) Value {
	n := fmt.Sprintf("f%d%s", p.w, op)
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return tNe(mkUF(n, 8, p, q), bv(8, 0))
	}
	return mkUF(n, p.w, p, q)
}

func concat(a, b StrV) StrV {
	if a.lit != nil && b.lit != nil {
		return strLit(*a.lit + *b.lit)
	}
	if a.lit != nil && *a.lit == "" {
		return b
	}
	if b.lit != nil && *b.lit == "" {
		return a
	}
	// (a + b) + c is the same string as a + (b + c)
	if p := strParts[a.id.id]; p != nil {
		r := b
		for k := len(p) - 1; k >= 0; k-- {
			r = concat(p[k], r)
		}
		return r
	}
	if p := strParts[b.id.id]; p != nil && a.lit != nil && p[0].lit != nil {
		r := strLit(*a.lit + *p[0].lit)
		t := p[len(p)-1]
		for k := len(p) - 2; k > 0; k-- {
			t = concat(p[k], t)
		}
		return concat(r, t)
	}
	r := StrV{id: mkUF("strcat", 64, a.id, b.id), n: tAdd(a.n, b.n), seq: catSeq(a.content(), b.content())}
	if p := strParts[b.id.id]; p != nil {
		strParts[r.id.id] = append([]StrV{a}, p...)
	} else {
		strParts[r.id.id] = []StrV{a, b}
	}
	return r
}

// strParts: the parts of the strings made by concat, none of them a concatenation itself
var strParts = map[int][]StrV{}

func strEqual(a, b StrV) *Term {
	if a.lit != nil && b.lit != nil {
		return mkBool(*a.lit == *b.lit)
	}
	if a.id == b.id {
		return tTrue
	}
	if a.lit != nil {
		a, b = b, a
	}
	if b.lit != nil && *b.lit == "" {
		return tEq(a.n, i64(0))
	}
	if b.lit != nil && len(*b.lit) <= 2 && a.seq != nil {
		// short literals: compare the content
		e := tEq(a.n, b.n)
		for i := 0; i < len(*b.lit); i++ {
			e = tAnd(e, tEq(a.seq.at(i64(int64(i)))[0], bv(8, uint64((*b.lit)[i]))))
		}
		return e
	}
	return tAnd(tEq(a.id, b.id), tEq(a.n, b.n))
}

func (x *Exec) equal(st *State, a, b Value, t types.Type) *Term {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			if isFloat(t) {
				return tNe(mkUF(fmt.Sprintf("feq%d", p.w), 8, p, q), bv(8, 0))
			}
			return tEq(p, q)
		}
		if q, ok := b.(PtrV); ok {
			return tEq(p, addrTerm(q))
		}
	case PtrV:
		q := x.asPtr(b)
		if (p.kind == pkObj || p.kind == pkBuf) && q.kind == pkRaw && q.addr.isC(0) {
			return tFls
		}
		if (q.kind == pkObj || q.kind == pkBuf) && p.kind == pkRaw && p.addr.isC(0) {
			return tFls
		}
		if p.kind == pkObj && q.kind == pkObj {
			if p.obj != q.obj {
				return tFls
			}
		}
		return tEq(addrTerm(p), addrTerm(q))
	case StrV:
		return strEqual(p, b.(StrV))
	case SliceV:
		if q, ok := b.(SliceV); ok {
			if q.isnil == tTrue {
				return p.isnil
			}
			if p.isnil == tTrue {
				return q.isnil
			}
		}
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			break
		}
		if q.tag.isC(0) {
			return tEq(p.tag, i64(0))
		}
		if p.tag.isC(0) {
			return tEq(q.tag, i64(0))
		}
		e := tEq(p.tag, q.tag)
		if p.data != nil && q.data != nil {
			return tAnd(e, tEq(p.data, q.data))
		}
	case FuncV:
		q, ok := b.(FuncV)
		if ok && q.nilF == tTrue {
			return p.nilF
		}
		if ok && p.nilF == tTrue {
			return q.nilF
		}
	case MapV:
		if q, ok := b.(MapV); ok {
			if p.obj != nil || q.obj != nil {
				if p.obj != nil && q.obj != nil {
					return mkBool(p.obj == q.obj)
				}
				return tFls
			}
			return tEq(p.ref, q.ref)
		}
	case StructV:
		if q, ok := b.(StructV); ok {
			r := tTrue
			for i := range p.f {
				r = tAnd(r, x.equal(st, p.f[i], q.f[i], p.typ.Field(i).Type()))
			}
			return r
		}
	case ArrV:
		if q, ok := b.(ArrV); ok {
			r := tTrue
			for i := range p.e {
				r = tAnd(r, x.equal(st, p.e[i], q.e[i], p.elem))
			}
			return r
		}
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", a, b)))
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fw, fs, fok := basicWidth(from)
	tw, _, tok := basicWidth(to)
	if fok && tok {
		t, isT := v.(*Term)
		if !isT {
			t = addrTerm(v.(PtrV))
		}
		if isFloat(from) || isFloat(to) {
			if fw == tw && isFloat(from) == isFloat(to) {
				return t
			}
			n := fmt.Sprintf("fconv:%s->%s", from.Underlying(), to.Underlying())
			return mkUF(n, tw, t)
		}
		if fs {
			return tSext(t, tw)
		}
		return tZext(t, tw)
	}
	switch s := v.(type) {
	case SliceV:
		if isString(to) {
			c := st.sliceContent(s)
			return seqString(c)
		}
	case StrV:
		if _, ok := under(to).(*types.Slice); ok {
			if sizes.Sizeof(under(to).(*types.Slice).Elem()) != 1 {
				panic(unsupported("string to rune slice"))
			}
			return st.bufSlice(under(to).(*types.Slice).Elem(), s.content())
		}
		return v
	case PtrV:
		if tok { // unsafe.Pointer -> uintptr
			return addrTerm(s)
		}
		if p, ok := under(to).(*types.Pointer); ok && s.kind == pkHeap && !strings.HasPrefix(s.region, "!") {
			_ = p
			if s.region != regionOf(p.Elem()) {
				return PtrV{kind: pkRaw, addr: s.addr}
			}
		}
		return s
	case *Term:
		if isString(to) {
			n := freshVar("runelen", 64)
			return StrV{id: mkUF("runestr", 64, tZext(s, 64)), n: n}
		}
		return PtrV{kind: pkRaw, addr: s}
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s of %T", from, to, v)))
}

func seqString(c *Seq) StrV {
	// literal content
	all := true
	var bs []byte
	for _, g := range c.segs {
		if g.kind != sgElems {
			all = false
			break
		}
		for _, e := range g.elems {
			if !e[0].isConst() {
				all = false
				break
			}
			bs = append(bs, byte(e[0].c))
		}
	}
	if all {
		return strLit(string(bs))
	}
	if len(c.segs) == 1 && c.segs[0].kind == sgSub && c.segs[0].src.name == "sbyte" && c.segs[0].off.isC(0) {
		return StrV{id: c.segs[0].src.args[0], n: c.n, seq: c}
	}
	return StrV{id: mkUF("strof", 64, c.ident()), n: c.n, seq: c}
}

// ---------- maps ----------

func (x *Exec) makeMap(st *State, mt *types.Map) MapV {
	if x.w.initMode {
		x.objN++
		o := &MapObj{id: x.objN}
		st.maps[o.id] = &MapC{}
		return MapV{ref: i64(0), obj: o, k: mt.Key(), v: mt.Elem()}
	}
	m := MapV{ref: st.alloc("map"), k: mt.Key(), v: mt.Elem()}
	n := map[*Term]bool{m.ref: true}
	for k := range st.mfresh {
		n[k] = true
	}
	st.mfresh = n
	return m
}

func (x *Exec) mapUpdate(st *State, m, k Value, kt types.Type, v Value, vt types.Type) {
	mv := m.(MapV)
	if mv.obj != nil {
		c := st.maps[mv.obj.id]
		n := &MapC{}
		rep := false
		for _, e := range c.ents {
			eq := x.equal(st, e.k, k, kt)
			if eq == tTrue {
				n.ents = append(n.ents, MapEntry{k, v})
				rep = true
				continue
			}
			if eq != tFls {
				panic(unsupported("update of a table with a symbolic key"))
			}
			n.ents = append(n.ents, e)
		}
		if !rep {
			n.ents = append(n.ents, MapEntry{k, v})
		}
		st.maps[mv.obj.id] = n
		return
	}
	st.mlog = append(st.mlog, mapStore{ref: mv.ref, k: mapKey(k, mv.k), v: v, vt: vt})
}

// mapKey: the identity of a key (strings by content)
func mapKey(k Value, t types.Type) []*Term {
	if s, ok := k.(StrV); ok {
		return []*Term{s.id}
	}
	if s, ok := k.(StructV); ok {
		var r []*Term
		for i, f := range s.f {
			r = append(r, mapKey(f, s.typ.Field(i).Type())...)
		}
		return r
	}
	return flatten(k, t)
}

func (st *State) mapName() string { return st.mver }

func (x *Exec) lookup(st *State, f *Frame, i *ssa.Lookup) []*State {
	v := st.get(i.X)
	if s, ok := v.(StrV); ok {
		f.env[i] = x.index(st, s, st.get(i.Index).(*Term), i.Index.Type(), x.pos(i.Pos()))
		return nil
	}
	m := v.(MapV)
	k := st.get(i.Index)
	set := func(s *State, val Value, ok *Term) {
		if i.CommaOk {
			s.top().env[i] = TupleV{val, ok}
		} else {
			s.top().env[i] = val
		}
	}
	if m.obj != nil {
		// fork over the entries
		var forks []*State
		cur := st
		for _, e := range st.maps[m.obj.id].ents {
			eq := x.equal(st, e.k, k, i.Index.Type())
			if eq == tFls {
				continue
			}
			if eq == tTrue {
				set(cur, e.v, tTrue)
				return forks
			}
			if cur.known(eq) == -1 {
				continue
			}
			hit := cur.clone()
			hit.assume(eq)
			if hit.feasible() {
				set(hit, e.v, tTrue)
				forks = append(forks, hit)
			}
			cur.assume(tNot(eq))
			if !cur.feasible() {
				cur.ev = evDead
				return forks
			}
		}
		set(cur, zeroValue(m.v), tFls)
		return forks
	}
	val, ok := st.mapGet(m, k)
	set(st, val, ok)
	return nil
}

func (st *State) mapGet(m MapV, k Value) (Value, *Term) {
	ks := mapKey(k, m.k)
	return st.mapGetAt(m, ks, len(st.mlog))
}

// mapGetAt is the value at key ks after the first n updates of the log
func (st *State) mapGetAt(m MapV, ks []*Term, n int) (Value, *Term) {
	for j := n - 1; j >= 0; j-- {
		e := st.mlog[j]
		eq := tEq(e.ref, m.ref)
		if e.clr {
			switch {
			case eq == tTrue || st.prove(eq):
				return zeroValue(m.v), tFls
			case disjoint(e.ref, 1, m.ref, 1) || st.prove(tNot(eq)):
				continue
			}
			panic(unsupported("lookup in a map which may have been emptied"))
		}
		for q := range ks {
			if q >= len(e.k) || e.k[q].w != ks[q].w {
				eq = tFls
				break
			}
			eq = tAnd(eq, tEq(e.k[q], ks[q]))
		}
		if eq == tTrue {
			return e.v, tTrue
		}
		if eq == tFls || disjoint(e.ref, 1, m.ref, 1) {
			continue
		}
		if st.prove(eq) {
			return e.v, tTrue
		}
		if st.prove(tNot(eq)) {
			continue
		}
		if _, _, ok := basicWidth(m.v); !ok {
			panic(unsupported("lookup in a map with symbolic updates"))
		}
		v, ok := st.mapGetAt(m, ks, j)
		p, q := flatten(e.v, m.v), flatten(v, m.v)
		return unflatten([]*Term{tIte(eq, p[0], q[0])}, m.v, false, nil, "", nil), tOr(eq, ok)
	}
	if st.mfresh[m.ref] {
		return zeroValue(m.v), tFls
	}
	base := fmt.Sprintf("map<%s,%s>/%s", regionOf(m.k), regionOf(m.v), st.mver)
	ok := tNe(mkUF(base+".has", 8, append([]*Term{m.ref}, ks...)...), bv(8, 0))
	cs := compsOf(m.v)
	ts := make([]*Term, len(cs))
	z := flatten(zeroValue(m.v), m.v)
	for j, c := range cs {
		ts[j] = mkUF(base+c.suffix, c.w, append([]*Term{m.ref}, ks...)...)
		// a missing key gives the zero value
		st.assume(tOr(ok, tEq(ts[j], z[j])))
	}
	if _, isStr := under(m.v).(*types.Basic); isStr && isString(m.v) {
		// content identity is what matters for strings
		id := mkUF(base+".sid", 64, append([]*Term{m.ref}, ks...)...)
		s := StrV{id: id, n: ts[1]}
		st.wellFormed(s)
		return s, ok
	}
	v := unflatten(ts, m.v, false, nil, "", nil)
	st.wellFormed(v)
	return v, ok
}

// mapAt gives the i-th element in the (arbitrary but fixed) iteration order
func (st *State) mapAt(m MapV, i *Term) (k, v Value) {
	mk := func(t types.Type, which string) Value {
		a := mkUF(which+"/"+st.mver, 64, m.ref, i)
		return st.load(PtrV{kind: pkRaw, addr: a}, t)
	}
	return mk(m.k, "mapkptr"), mk(m.v, "mapvptr")
}

func (st *State) mapLen(m MapV) *Term {
	if st.mfresh[m.ref] && len(st.mlog) == 0 {
		return i64(0)
	}
	for _, e := range st.mlog {
		if !disjoint(e.ref, 1, m.ref, 1) && !st.prove(tNe(e.ref, m.ref)) {
			panic(unsupported("length of an updated map"))
		}
	}
	n := mkUF("maplen/"+st.mver, 64, m.ref)
	st.assume(tUlt(n, i64(int64(lenMax))))
	st.assume(tOr(tNe(m.ref, i64(0)), tEq(n, i64(0))))
	return n
}

// clearLoop: "for k := range m { delete(m, k) }"
func clearLoop(r *ssa.Range) bool {
	refs := *r.Referrers()
	if len(refs) != 1 {
		return false
	}
	n, ok := refs[0].(*ssa.Next)
	if !ok || len(n.Block().Instrs) > 4 {
		return false
	}
	ifi, ok := n.Block().Instrs[len(n.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	var key ssa.Value
	for _, u := range *n.Referrers() {
		e, ok := u.(*ssa.Extract)
		switch {
		case !ok:
			return false
		case e.Index == 0 && e == ifi.Cond:
		case e.Index == 1 && key == nil:
			key = e
		default:
			return false
		}
	}
	body := n.Block().Succs[0]
	if len(body.Preds) != 1 || len(body.Succs) != 1 || body.Succs[0] != n.Block() {
		return false
	}
	for _, in := range body.Instrs {
		switch in := in.(type) {
		case *ssa.Extract, *ssa.Jump, *ssa.DebugRef:
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "delete" || in.Call.Args[0] != r.X || in.Call.Args[1] != key || key == nil {
				return false
			}
			key = nil
		default:
			return false
		}
	}
	return key == nil
}

func (x *Exec) next(st *State, f *Frame, i *ssa.Next) []*State {
	it := st.get(i.Iter).(IterV)
	if i.IsString {
		return x.nextRune(st, f, i, it)
	}
	if it.none {
		f.env[i] = TupleV{tFls, zeroOf(i.Type().(*types.Tuple).At(1).Type()), zeroOf(i.Type().(*types.Tuple).At(2).Type())}
		return nil
	}
	m := it.m
	pos := st.objs[it.obj].(*Term)
	tt := i.Type().(*types.Tuple)
	if m.obj != nil {
		ents := st.maps[m.obj.id].ents
		if !pos.isConst() {
			panic(unsupported("symbolic position in a table iteration"))
		}
		if pos.c >= uint64(len(ents)) {
			f.env[i] = TupleV{tFls, zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())}
			return nil
		}
		e := ents[pos.c]
		st.objs[it.obj] = tAdd(pos, i64(1))
		f.env[i] = TupleV{tTrue, e.k, e.v}
		return nil
	}
	x.trust("map iteration order is fixed but arbitrary while a map is not modified")
	n := st.mapLen(m)
	return x.branch(st, tUlt(pos, n), func(s *State) {
		k, v := s.mapAt(m, pos)
		s.objs[it.obj] = tAdd(pos, i64(1))
		s.top().env[i] = TupleV{tTrue, k, v}
	}, func(s *State) {
		s.top().env[i] = TupleV{tFls, zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())}
	})
}

func zeroOf(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return i64(0)
	}
	return zeroValue(t)
}

func (x *Exec) nextRune(st *State, f *Frame, i *ssa.Next, it IterV) []*State {
	pos := st.objs[it.obj].(*Term)
	s := *it.str
	x.trust("decoding of UTF-8 in range loops over strings is uninterpreted beyond ASCII")
	return x.branch(st, tUlt(pos, s.n), func(q *State) {
		c := s.content().at(pos)[0]
		ascii := tUlt(c, bv(8, 0x80))
		w := mkUF("runewidth", 64, s.id, pos)
		r := mkUF("runeat", 32, s.id, pos)
		q.assume(tUle(i64(1), w))
		q.assume(tUle(w, i64(4)))
		q.assume(tUle(w, tSub(s.n, pos)))
		rw := tIte(ascii, i64(1), w)
		rr := tIte(ascii, tZext(c, 32), r)
		q.objs[it.obj] = tAdd(pos, rw)
		q.top().env[i] = TupleV{tTrue, pos, rr}
	}, func(q *State) {
		q.top().env[i] = TupleV{tFls, i64(0), bv(32, 0)}
	})
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
