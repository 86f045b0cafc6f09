package main

// Symbolic state: frames, path condition, memories.

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type rawStore struct {
	addr *Term
	size int64
	typ  types.Type
	val  Value
	seq  *Seq  // range store
	n    *Term // bytes of a range store
	es   int64 // element size of a range store
}

// RawMem is byte-addressed memory: a version plus stores (immutable value)
type RawMem struct {
	ver string
	log []rawStore
	k   string
}

var debugMemKeys = os.Getenv("GOVC_MEMK") != ""

func (m *RawMem) key() string {
	if m.k == "" {
		k := m.ver
		t := nameTime(m.ver)
		for _, s := range m.log {
			t = max(t, termTime(s.addr))
			if s.seq != nil {
				t = max(t, seqTime(s.seq))
			} else {
				for _, c := range flatten(s.val, s.typ) {
					t = max(t, termTime(c))
				}
			}
			if s.seq != nil {
				k += fmt.Sprintf(";r%d:%d:%s", s.addr.id, s.n.id, s.seq.keyStr())
			} else {
				k += fmt.Sprintf(";%d:%d:%s", s.addr.id, s.size, valueKey(s.val, s.typ))
			}
		}
		m.k = timed(internKey(k), t)
		if debugMemKeys {
			fmt.Fprintf(os.Stderr, "memkey %s: ver %s\n", m.k, m.ver)
			for _, s := range m.log {
				if s.seq != nil {
					fmt.Fprintf(os.Stderr, "   [%v +%v] seq %s\n", s.addr, s.n, s.seq.keyStr())
				} else {
					fmt.Fprintf(os.Stderr, "   [%v]%d := %s (%v)\n", s.addr, s.size, vstr(s.val), valueKey(s.val, s.typ))
				}
			}
		}
	}
	return m.k
}

// scratchRoot is the private scratch pointer an address is derived from
func scratchRoot(t *Term) *Term {
	if t.scr != 0 {
		if t.scr == 1 {
			return nil
		}
		return scrRoots[t]
	}
	t.scr = 1
	for a, c := range toLin(t).m {
		if c == 1 && a.op == OpUF && strings.HasPrefix(a.name, "scratch:") {
			t.scr = 2
			scrRoots[t] = a
			return a
		}
	}
	return nil
}

var scrRoots = map[*Term]*Term{}

// vis is the memory without private scratch cells
func (m *RawMem) vis() *RawMem {
	any := false
	for _, s := range m.log {
		if scratchRoot(s.addr) != nil {
			any = true
		}
	}
	if !any {
		return m
	}
	r := &RawMem{ver: m.ver}
	for _, s := range m.log {
		if scratchRoot(s.addr) == nil {
			r.log = append(r.log, s)
		}
	}
	return r
}

// hasScratch: some term is derived from a scratch pointer
func hasScratch(ts []*Term) bool {
	for _, t := range ts {
		if scratchRoot(t) != nil {
			return true
		}
	}
	return false
}

func (m *RawMem) with(s rawStore) *RawMem {
	return &RawMem{ver: m.ver, log: append(append([]rawStore{}, m.log...), s)}
}

var clock int

func newVersion(prefix string) string {
	clock++
	return fmt.Sprintf("%s@%d@", prefix, clock)
}

// Times order versions and allocations: version c has time 2c, an allocation
// in the epoch c (after version c) 2c+1. Whatever has a time below that of an
// allocation existed before it and cannot be derived from it.

// nameTime reads the time off a name: "@c@" is a version, "#t#" a time
func nameTime(name string) int {
	mx := 0
	for i := 0; i < len(name); i++ {
		c := name[i]
		if c != '@' && c != '#' {
			continue
		}
		j := strings.IndexByte(name[i+1:], c)
		if j < 0 {
			continue
		}
		if n, err := strconv.Atoi(name[i+1 : i+1+j]); err == nil {
			if c == '@' {
				n *= 2
			}
			if n > mx {
				mx = n
			}
		}
	}
	if strings.HasPrefix(name, "alloc@") {
		mx++
	}
	return mx
}

var termTimes = map[*Term]int{}

// termTime: latest version or allocation a term depends on
func termTime(t *Term) int {
	if n, ok := termTimes[t]; ok {
		return n
	}
	mx := 0
	if t.op == OpUF || t.op == OpVar {
		mx = nameTime(t.name)
	}
	for _, a := range t.args {
		if n := termTime(a); n > mx {
			mx = n
		}
	}
	termTimes[t] = mx
	return mx
}

func seqTime(s *Seq) int {
	mx := 0
	up := func(n int) {
		if n > mx {
			mx = n
		}
	}
	for _, g := range s.segs {
		for _, e := range g.elems {
			for _, t := range e {
				up(termTime(t))
			}
		}
		for _, t := range []*Term{g.n, g.off, g.v} {
			if t != nil {
				up(termTime(t))
			}
		}
		if g.seq != nil {
			up(seqTime(g.seq))
		}
		if g.src != nil {
			up(nameTime(g.src.name))
			for _, t := range g.src.args {
				up(termTime(t))
			}
			if g.src.mem != nil {
				up(nameTime(g.src.mem.key()))
			}
			if g.src.addr != nil {
				up(termTime(g.src.addr))
			}
		}
	}
	return mx
}

// timed appends a time to a name
func timed(k string, t int) string {
	if t == 0 {
		return k
	}
	return fmt.Sprintf("%s#%d#", k, t)
}

func allocRoot(t *Term) (*Term, int) {
	for a, c := range toLin(t).m {
		if c == 1 && (a.op == OpVar || a.op == OpUF) && strings.HasPrefix(a.name, "alloc@") {
			return a, nameTime(a.name)
		}
	}
	return nil, 0
}

// disjoint decides syntactically that [a,a+n) and [b,b+m) do not overlap
func disjoint(a *Term, n int64, b *Term, m int64) bool {
	d := tSub(a, b)
	if d.isConst() {
		x := int64(d.c)
		return x >= m || -x >= n
	}
	if sa, sb := scratchRoot(a), scratchRoot(b); (sa != nil) != (sb != nil) {
		return true
	}
	ra, ta := allocRoot(a)
	rb, tb := allocRoot(b)
	if ra != nil && rb != nil {
		return ra != rb
	}
	if ra != nil && termTime(b) < ta {
		return true
	}
	if rb != nil && termTime(a) < tb {
		return true
	}
	return false
}

func (m *RawMem) base(a *Term, w int) *Term {
	return mkUF(fmt.Sprintf("ld%d:%s", w, m.ver), w, a)
}

func (m *RawMem) load(a *Term, w int, st *State) *Term {
	sz := int64(w / 8)
	for i := len(m.log) - 1; i >= 0; i-- {
		s := &m.log[i]
		if s.seq != nil {
			d := tSub(a, s.addr)
			if s.es*8 == int64(w) && st != nil && len(s.seq.ws) == 1 {
				if st.prove(tUlt(d, s.n)) {
					if s.es == 1 || (d.isConst() && int64(d.c)%s.es == 0) {
						ix := d
						if s.es != 1 {
							ix = i64(int64(d.c) / s.es)
						}
						return s.seq.at(ix)[0]
					}
				}
			}
			if disjoint(a, sz, s.addr, 1<<40) || (st != nil && st.prove(tAnd(tUle(s.n, d), tUle(d, tSub(i64(0), i64(sz)))))) {
				continue
			}
			return mkUF(fmt.Sprintf("ldx%d:%s", w, m.key()), w, a)
		}
		d := tSub(a, s.addr)
		if d.isConst() && int64(d.c) >= 0 && int64(d.c)+sz <= s.size {
			cs := flatten(s.val, s.typ)
			for j, c := range compsOf(s.typ) {
				if c.off == int64(d.c) && c.w == w {
					return cs[j]
				}
				if c.off <= int64(d.c) && int64(d.c)+sz <= c.off+int64(c.w/8) {
					return tExtract(cs[j], int(int64(d.c)-c.off)*8, w)
				}
			}
		}
		if disjoint(a, sz, s.addr, s.size) {
			continue
		}
		if st != nil {
			if st.prove(tOr(tAnd(tUle(i64(s.size), d), tUle(d, i64(-sz))))) {
				continue
			}
			if s.size == sz && st.prove(tEq(d, i64(0))) {
				return flatten(s.val, s.typ)[0]
			}
		}
		return mkUF(fmt.Sprintf("ldx%d:%s", w, m.key()), w, a)
	}
	return m.base(a, w)
}

// exact finds the value stored by the latest store when it is exactly (addr,typ)
func (m *RawMem) exact(a *Term, t types.Type) (Value, bool) {
	sz := sizes.Sizeof(t)
	for i := len(m.log) - 1; i >= 0; i-- {
		s := &m.log[i]
		if s.seq == nil && s.addr == a && s.size == sz && types.Identical(under(s.typ), under(t)) {
			return s.val, true
		}
		n := s.size
		if s.seq != nil {
			n = 1 << 40
		}
		if !disjoint(a, sz, s.addr, n) {
			return nil, false
		}
	}
	return nil, false
}

type heapStore struct {
	keys []*Term
	val  *Term
}

// HeapMem is one component of one typed region
type HeapMem struct {
	ver string
	log []heapStore
}

func (h *HeapMem) load(name string, w int, keys []*Term, st *State) *Term {
	for i := len(h.log) - 1; i >= 0; i-- {
		s := h.log[i]
		eq := tTrue
		for j := range keys {
			eq = tAnd(eq, tEq(keys[j], s.keys[j]))
		}
		if eq == tTrue {
			return s.val
		}
		if eq == tFls || disjoint(keys[0], 1, s.keys[0], 1) && len(keys) == 1 {
			continue
		}
		if st != nil {
			if st.prove(tNot(eq)) {
				continue
			}
			if st.prove(eq) {
				return s.val
			}
		}
		r := tIte(eq, s.val, (&HeapMem{ver: h.ver, log: h.log[:i]}).load(name, w, keys, st))
		return r
	}
	return mkUF(name+"/"+h.ver, w, keys...)
}

type BufC struct {
	content *Seq
	cap     *Term // total elements of the array
	group   int   // buffers which may share one array
	base    *Term // where this one starts in the shared array (nil: 0)
	ro      bool
}

func (b BufC) at() *Term {
	if b.base == nil {
		return i64(0)
	}
	return b.base
}

type mapStore struct {
	ref *Term
	k   []*Term
	v   Value
	vt  types.Type
	clr bool // every key removed
}

type MapEntry struct {
	k Value
	v Value
}

type MapC struct {
	ents []MapEntry
}

type pcNode struct {
	t    *Term
	next *pcNode
}

type evKind uint8

const (
	evNone evKind = iota
	evRet
	evPanic
	evHead
	evBack
	evExit
	evDead
)

type watch struct {
	depth  int
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	env    map[ssa.Value]Value
	ret    ssa.Value // call instruction in the parent frame
	retFn  func(st *State, res []Value)
	unroll map[*ssa.BasicBlock]int
	defers []*ssa.Defer
	inline bool
}

type State struct {
	x       *Exec
	frames  []*Frame
	pc      *pcNode
	bufs    map[int]BufC
	objs    map[*Obj]Value
	raw     *RawMem
	heap    map[string]*HeapMem
	heapVer string
	maps    map[int]*MapC
	mver    string
	mlog    []mapStore
	globals map[*ssa.Global]*Obj
	allocN  int
	allocE  string
	ev      evKind
	evInfo  string
	evPos   string
	results []Value
	watch   []watch
	steps   int
	spec    bool
	invDone map[string]bool // type invariants already assumed
	mfresh  map[*Term]bool  // maps allocated since the last havoc
}

func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		if f.unroll != nil {
			g.unroll = make(map[*ssa.BasicBlock]int)
			for k, v := range f.unroll {
				g.unroll[k] = v
			}
		}
		g.defers = append([]*ssa.Defer{}, f.defers...)
		n.frames[i] = &g
	}
	n.bufs = make(map[int]BufC, len(st.bufs))
	for k, v := range st.bufs {
		n.bufs[k] = v
	}
	n.objs = make(map[*Obj]Value, len(st.objs))
	for k, v := range st.objs {
		n.objs[k] = v
	}
	n.heap = make(map[string]*HeapMem, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.maps = make(map[int]*MapC, len(st.maps))
	for k, v := range st.maps {
		n.maps[k] = v
	}
	n.globals = make(map[*ssa.Global]*Obj, len(st.globals))
	for k, v := range st.globals {
		n.globals[k] = v
	}
	n.mlog = append([]mapStore{}, st.mlog...)
	n.watch = append([]watch{}, st.watch...)
	return &n
}

func (st *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == OpAnd {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	for n := st.pc; n != nil; n = n.next {
		if n.t == t {
			return
		}
	}
	st.pc = &pcNode{t, st.pc}
}

func (st *State) facts() []*Term {
	n := 0
	for p := st.pc; p != nil; p = p.next {
		n++
	}
	r := make([]*Term, n, n+1) // oldest first
	for p := st.pc; p != nil; p = p.next {
		n--
		r[n] = p.t
	}
	return r
}

// known looks a fact up syntactically: +1 true, -1 false, 0 unknown
func (st *State) known(c *Term) int {
	if c == tTrue {
		return 1
	}
	if c == tFls {
		return -1
	}
	k := st.closure()
	if k.dead {
		return -1
	}
	return k.holds(c)
}

// relevantFacts keeps the facts sharing symbols (transitively) with goal
func relevantFacts(fs []*Term, goal *Term) []*Term {
	if len(fs) < 12 {
		return fs
	}
	return fs
}

// idEqual decides equality of string identities by congruence; the solvers know no more.
func (st *State) idEqual(a, b *Term) bool {
	if a == b || st.known(tEq(a, b)) == 1 {
		return true
	}
	if a.op == OpUF && b.op == OpUF && a.name == b.name && len(a.args) == len(b.args) {
		ok := true
		for k := range a.args {
			if p, q := a.args[k], b.args[k]; p.w != q.w || p != q && !(isStrID(p) || isStrID(q)) && !st.prove(tEq(p, q)) || (isStrID(p) || isStrID(q)) && !st.idEqual(p, q) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func isIDGoal(g *Term) bool {
	return g.op == OpEq && (isStrID(g.args[0]) || isStrID(g.args[1]))
}

func (st *State) prove(g *Term) bool {
	if isIDGoal(g) && st.idEqual(g.args[0], g.args[1]) {
		return true
	}
	if isIDGoal(g) && st.known(g) != -1 {
		return false
	}
	switch st.known(g) {
	case 1:
		return true
	case -1:
		if g == tFls {
			return st.x.sol.check(st.facts(), false) == Unsat
		}
		// the negation is a known fact: provable only if pc is inconsistent
		return st.x.sol.check(st.facts(), false) == Unsat
	}
	if st.quick(g) {
		st.x.quickN++
		return true
	}
	if st.quick(tNot(g)) {
		return false // g holds on an infeasible path only
	}
	if st.looseCap(g) {
		if os.Getenv("GOVC_CAP") != "" {
			fmt.Fprintf(os.Stderr, "CAP %v\n", g)
			for _, f := range st.facts() {
				fmt.Fprintf(os.Stderr, "    %v\n", f)
			}
		}
		return false
	}
	if st.congruentGoal(g) {
		return true
	}
	return st.x.sol.check(append(st.facts(), tNot(g)), false) == Unsat
}

func (st *State) proveHard(g *Term) Result {
	if isIDGoal(g) {
		if st.idEqual(g.args[0], g.args[1]) {
			return Unsat
		}
		return st.x.sol.check(st.facts(), false)
	}
	if st.known(g) == 1 || st.quick(g) || st.congruentGoal(g) {
		return Unsat
	}
	return st.x.sol.check(append(st.facts(), tNot(g)), true)
}

func (st *State) feasible() bool {
	return st.x.sol.check(st.facts(), false) != Unsat
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) newObj(name string, t types.Type, v Value) *Obj {
	st.x.objN++
	o := &Obj{id: st.x.objN, name: name, typ: t}
	st.objs[o] = v
	return o
}

func (st *State) newBuf(content *Seq, cp *Term, group int) int {
	st.x.bufN++
	id := st.x.bufN
	if group == 0 {
		group = id
	}
	st.bufs[id] = BufC{content: content, cap: cp, group: group}
	return id
}

// alloc returns a fresh raw address (non-nil)
func (st *State) alloc(what string, args ...*Term) *Term {
	st.allocN++
	name := fmt.Sprintf("alloc@%s@%d", st.allocE, st.allocN)
	a := mkVar(name, 64)
	if len(args) > 0 {
		a = mkUF(name, 64, args...)
	}
	st.assume(tUlt(i64(4096), a))
	st.assume(tUlt(a, bv(64, 1<<62)))
	return a
}
