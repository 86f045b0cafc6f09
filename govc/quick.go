package main

import "strings"

// A small linear-arithmetic prover over the facts of a path. It answers the
// many "offset within bounds" questions without the solver; whatever it cannot
// show goes to the solver.

const quickMax = int64(1)<<62 + 1<<50

type ilin struct {
	c int64
	m map[*Term]int64
}

type factSum struct {
	ub  map[*Term]uint64
	ord []ilin // each >= 0
	cap map[*Term]int
}

// capVars lists the capacity variables below t
func capVars(t *Term) []*Term {
	if r, ok := capMemo[t]; ok {
		return r
	}
	var r []*Term
	if t.op == OpVar {
		if strings.HasPrefix(t.name, "cap!") || strings.HasSuffix(t.name, ".cap") {
			r = []*Term{t}
		}
	} else {
		for _, a := range t.args {
			for _, v := range capVars(a) {
				dup := false
				for _, o := range r {
					dup = dup || o == v
				}
				if !dup {
					r = append(r, v)
				}
			}
		}
	}
	capMemo[t] = r
	return r
}

var capMemo = map[*Term][]*Term{}

// looseCap: g is about a capacity of which nothing is known but that it is at
// least the length; what quick cannot prove about it does not hold
func (st *State) looseCap(g *Term) bool {
	vs := capVars(g)
	if len(vs) == 0 {
		return false
	}
	s := st.factSummary()
	for _, v := range vs {
		if s.cap[v] == 0 {
			return true
		}
	}
	return false
}

// rangeOf bounds an integer linear form over non-negative atoms
func (s *factSum) rangeOf(l ilin) (lo, hi int64, ok bool) {
	lo, hi = l.c, l.c
	for t, k := range l.m {
		u := s.upper(t)
		if u >= 1<<48 || k > 1<<10 || k < -1<<10 {
			// unbounded above: only the other side stays known
			if k > 0 {
				hi = quickMax
			} else {
				lo = -quickMax
			}
			continue
		}
		if k > 0 {
			hi += k * int64(u)
		} else {
			lo += k * int64(u)
		}
		if hi > quickMax {
			hi = quickMax
		}
		if lo < -quickMax {
			lo = -quickMax
		}
	}
	return lo, hi, true
}

func (s *factSum) upper(t *Term) uint64 {
	u := umax(t)
	if v, ok := s.ub[t]; ok && v < u {
		return v
	}
	return u
}

// intLin reads a term as an integer linear form with signed coefficients
func intLin(t *Term) (ilin, bool) {
	if t.w != 64 {
		return ilin{}, false
	}
	l := toLin(t)
	r := ilin{c: int64(l.c), m: map[*Term]int64{}}
	if r.c > 1<<62 || r.c < -1<<60 {
		return r, false
	}
	for a, k := range l.m {
		if int64(k) > 1<<10 || int64(k) < -1<<10 {
			return r, false
		}
		r.m[a] = int64(k)
	}
	return r, true
}

func (a ilin) sub(b ilin) ilin {
	r := ilin{c: a.c - b.c, m: make(map[*Term]int64, len(a.m)+len(b.m))}
	for t, k := range a.m {
		r.m[t] = k
	}
	for t, k := range b.m {
		if v := r.m[t] - k; v == 0 {
			delete(r.m, t)
		} else {
			r.m[t] = v
		}
	}
	return r
}

func (s *factSum) ge0(l ilin, depth int) bool {
	if lo, _, ok := s.rangeOf(l); ok && lo >= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, f := range s.ord {
		// only facts removing a negative atom help
		helps := false
		for t, k := range f.m {
			if k < 0 && l.m[t] < 0 {
				helps = true
				break
			}
		}
		if !helps && !(l.c < 0 && f.c < 0) {
			continue
		}
		if s.ge0(l.sub(f), depth-1) {
			return true
		}
	}
	return false
}

// exact: the machine value of t is the integer value of l, in [0, 2^62)
func (s *factSum) exact(l ilin, depth int) bool {
	_, hi, ok := s.rangeOf(l)
	if !ok || hi >= quickMax {
		// an upper bound through an order fact is not attempted
		return false
	}
	return s.ge0(l, depth) || depth > 0 && s.linear(l)
}

// small: |l| < 2^62 by intervals alone
func (s *factSum) small(l ilin) bool {
	lo, hi, ok := s.rangeOf(l)
	return ok && lo > -quickMax && hi < quickMax
}

// cmp reads an order atom as "l >= 0"
func (s *factSum) cmp(t *Term, depth int) (ilin, bool) {
	neg := false
	if t.op == OpNot {
		neg, t = true, t.args[0]
	}
	switch t.op {
	case OpUlt, OpUle, OpSlt, OpSle:
	default:
		return ilin{}, false
	}
	a, ok1 := intLin(t.args[0])
	b, ok2 := intLin(t.args[1])
	if !ok1 || !ok2 {
		return ilin{}, false
	}
	if t.op == OpUlt || t.op == OpUle {
		if !s.exact(a, depth) || !s.exact(b, depth) {
			return ilin{}, false
		}
	} else if !s.small(a) || !s.small(b) {
		return ilin{}, false
	}
	strict := t.op == OpUlt || t.op == OpSlt
	if neg { // not a<b: a>=b
		a, b = b, a
		strict = !strict
	}
	l := b.sub(a)
	if strict {
		l.c--
	}
	return l, true
}

func (st *State) factSummary() *factSum {
	x := st.x
	if s, ok := x.sums[st.pc]; ok {
		return s
	}
	s := &factSum{ub: map[*Term]uint64{}}
	s.cap = map[*Term]int{}
	var fs []*Term
	for n := st.pc; n != nil; n = n.next {
		fs = append(fs, n.t)
		t := n.t
		if vs := capVars(t); len(vs) > 0 {
			plain := len(vs) == 1 && (t.op == OpUlt && t.args[0] == vs[0] && t.args[1].isConst() ||
				t.op == OpUle && t.args[1] == vs[0] || t.op == OpOr && len(t.args) == 2 && isNilOr(t))
			for _, v := range vs {
				if !plain {
					s.cap[v]++
				}
			}
		}
	}
	if c := st.closure(); !c.dead {
		fs = append(fs, c.units...)
	}
	put := func(t *Term, c uint64) {
		if t.w != 64 {
			return
		}
		if v, ok := s.ub[t]; !ok || c < v {
			s.ub[t] = c
		}
	}
	for i := len(fs) - 1; i >= 0; i-- {
		t := fs[i]
		neg := t.op == OpNot
		if neg {
			t = t.args[0]
		}
		switch {
		case t.op == OpUlt && !neg && t.args[1].isConst() && t.args[1].c > 0:
			put(t.args[0], t.args[1].c-1)
		case t.op == OpUle && !neg && t.args[1].isConst():
			put(t.args[0], t.args[1].c)
		case t.op == OpUlt && neg && t.args[0].isConst():
			put(t.args[1], t.args[0].c)
		case t.op == OpUle && neg && t.args[0].isConst() && t.args[0].c > 0:
			put(t.args[1], t.args[0].c-1)
		}
	}
	for _, t := range fs {
		if (t.op == OpSle || t.op == OpSlt) && t.args[0].isConst() && t.args[0].w == 64 && int64(t.args[0].c) >= -1 {
			if t.op == OpSle && int64(t.args[0].c) >= 0 || t.op == OpSlt {
				put(t.args[1], 1<<63-1)
			}
		}
	}
	for i := len(fs) - 1; i >= 0; i-- {
		t := fs[i]
		// x <= y with y bounded bounds x
		if (t.op == OpSle || t.op == OpSlt) && t.args[0].w == 64 && !t.args[0].isConst() && t.args[0].op != OpLin && s.upper(t.args[0]) < 1<<63 {
			if y, ok := intLin(t.args[1]); ok {
				if lo, hi, _ := s.rangeOf(y); hi < 1<<48 && hi >= 0 && lo > -1<<60 {
					put(t.args[0], uint64(hi))
				}
			}
		}
		if t.op == OpUle || t.op == OpUlt {
			if y, ok := intLin(t.args[1]); ok {
				if _, hi, _ := s.rangeOf(y); hi < 1<<48 && hi >= 0 && s.exact(y, 0) && t.args[0].op != OpConst {
					put(t.args[0], uint64(hi))
					// a sum of non-negative atoms, all but one of them bounded
					// and that one below 2^63, cannot wrap
					if l, ok := intLin(t.args[0]); ok && l.c >= 0 && l.c < 1<<58 && len(l.m) > 1 {
						var big *Term
						nb := 0
						for a, k := range l.m {
							switch u := s.upper(a); {
							case k < 0:
								nb = 2
							case u >= 1<<48:
								nb++
								big = a
								if k != 1 || u >= 1<<63 {
									nb = 2
								}
							}
						}
						if nb == 1 {
							put(big, uint64(hi))
						}
					}
				}
			}
		}
	}
	for i := len(fs) - 1; i >= 0; i-- {
		if t := fs[i]; t.op == OpEq && t.args[0].w == 64 {
			a, ok1 := intLin(t.args[0])
			b, ok2 := intLin(t.args[1])
			if ok1 && ok2 && s.exact(a, 0) && s.exact(b, 0) {
				if l := a.sub(b); len(l.m) > 0 && l.c < 1<<58 && l.c > -1<<58 {
					s.ord = append(s.ord, l, b.sub(a))
				}
			}
			continue
		}
		if l, ok := s.cmp(fs[i], 1); ok && len(l.m) > 0 && l.c < 1<<58 && l.c > -1<<58 {
			s.ord = append(s.ord, l)
		}
	}
	if len(x.sums) > 4000 {
		x.sums = map[*pcNode]*factSum{}
	}
	x.sums[st.pc] = s
	return s
}

// quick proves g from the facts by linear reasoning, or gives up
func (st *State) quick(g *Term) bool {
	switch g.op {
	case OpConst:
		return g == tTrue
	case OpAnd:
		for _, a := range g.args {
			if st.known(a) != 1 && !st.quick(a) {
				return false
			}
		}
		return true
	case OpOr:
		for _, a := range g.args {
			if st.known(a) == 1 || st.quick(a) {
				return true
			}
		}
		return false
	case OpEq:
		if g.args[0].w != 64 {
			return false
		}
		s := st.factSummary()
		a, ok1 := intLin(g.args[0])
		b, ok2 := intLin(g.args[1])
		if !ok1 || !ok2 || !s.exact(a, 1) || !s.exact(b, 1) {
			return false
		}
		return s.linear(a.sub(b)) && s.linear(b.sub(a))
	case OpUlt, OpUle, OpSlt, OpSle, OpNot:
		s := st.factSummary()
		if e := g.args[0]; g.op == OpNot && e.op == OpEq {
			if e.args[0].w != 64 {
				return false
			}
			a, ok1 := intLin(e.args[0])
			b, ok2 := intLin(e.args[1])
			if !ok1 || !ok2 || !s.exact(a, 1) || !s.exact(b, 1) {
				return false
			}
			l := a.sub(b)
			l.c--
			if s.linear(l) {
				return true
			}
			l = b.sub(a)
			l.c--
			return s.linear(l)
		}
		l, ok := s.cmp(g, 1)
		return ok && (s.ge0(l, 1) || s.linear(l))
	}
	return false
}

// isNilOr: "not nil, or the capacity is 0"
func isNilOr(t *Term) bool {
	for _, a := range t.args {
		if a.op == OpNot && a.args[0].op == OpVar && a.args[0].w == 0 {
			return true
		}
	}
	return false
}

// congruent proves a = b by pairing off their differing parts. It is a
// shortcut only: false means nothing.
func (st *State) congruent(a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if a.w != b.w || a.isConst() || b.isConst() {
		return false
	}
	if depth > 6 {
		return false
	}
	if isStrID(a) || isStrID(b) {
		return st.idEqual(a, b)
	}
	return st.descend(a, b, depth) || depth > 0 && st.x.sol.check(append(st.facts(), tNe(a, b)), false) == Unsat
}

func (st *State) descend(a, b *Term, depth int) bool {
	if a.op == OpLin || b.op == OpLin {
		if a.w != 64 {
			return false
		}
		d := tSub(a, b)
		if d.op != OpLin || d.c != 0 || len(d.args) > 6 {
			return false
		}
		used := make([]bool, len(d.args))
		for i, p := range d.args {
			if used[i] || p.op == OpVar {
				continue
			}
			for j := i + 1; j < len(d.args); j++ {
				if !used[j] && d.cs[i]+d.cs[j] == 0 && p.op == d.args[j].op && p.name == d.args[j].name && st.congruent(p, d.args[j], depth+1) {
					used[i], used[j] = true, true
					break
				}
			}
			if !used[i] {
				return false
			}
		}
		for _, u := range used {
			if !u {
				return false
			}
		}
		return true
	}
	if a.op != b.op || a.name != b.name || a.lo != b.lo || a.c != b.c || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	switch a.op {
	case OpUF, OpMul, OpZext, OpSext, OpExtract:
	default:
		return false
	}
	for i := range a.args {
		if !st.congruent(a.args[i], b.args[i], depth+1) {
			return false
		}
	}
	return true
}

func (st *State) congruentGoal(g *Term) bool {
	if g.op != OpEq || g.args[0].w <= 1 {
		return false
	}
	return st.congruent(g.args[0], g.args[1], 0)
}
