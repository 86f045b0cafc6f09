package main

// Repair of a model: when an earlier model misses a query by few facts, a change
// of one or two of its values often satisfies it. The outcome is evaluated on
// every fact, so a repair can only ever find a real model.

import (
	"sort"
	"strconv"
)

type move struct {
	t *Term // a variable or application
	v uint64
}

type repairer struct {
	fs   []*Term
	ls   []*Term
	left int // evaluations
}

// with is m with the moves made; nil if equal applications would differ
func (r *repairer) with(m *Model, ms []move) *Model {
	n := &Model{vars: map[string]uint64{}, ufs: map[string]uint64{}, memo: map[*Term]uint64{}}
	for _, t := range r.ls {
		v, set := m.eval(t), false
		for _, c := range ms {
			if c.t == t {
				v, set = c.v, true
			}
		}
		if t.w > 0 {
			v &= mask(t.w)
		}
		if t.op == OpVar {
			n.vars[t.name] = v
			continue
		}
		name := t.name
		if t.op == OpMul {
			if len(t.args) != 2 {
				return nil
			}
			name = "mul" + strconv.Itoa(t.w)
		}
		as := make([]uint64, len(t.args))
		for i := range as {
			as[i] = n.eval(t.args[i])
		}
		k := ufKey(name, as...)
		if old, ok := n.ufs[k]; ok && old != v {
			if set {
				return nil
			}
			continue // the value set first stands
		}
		n.ufs[k] = v
	}
	return n
}

func (r *repairer) try(m *Model, ms []move, depth int) *Model {
	var bad *Term
	nbad := 0
	for _, f := range r.fs {
		if m.eval(f) == 0 {
			if nbad++; nbad == 1 {
				bad = f
			}
		}
	}
	if nbad == 0 {
		return m
	}
	if nbad > 4 || depth == 0 {
		return nil
	}
	var next []*Model
	var mss [][]move
	for _, c := range r.moves(m, bad, true, 0) {
		if r.left--; r.left < 0 {
			return nil
		}
		done := false
		for _, o := range ms {
			done = done || o.t == c.t
		}
		if done {
			continue
		}
		ms2 := append(ms[:len(ms):len(ms)], c)
		n := r.with(m, []move{c})
		if n == nil || n.eval(bad) == 0 {
			continue
		}
		if n.satisfies(r.fs) {
			return n
		}
		next = append(next, n)
		mss = append(mss, ms2)
	}
	for i, n := range next {
		if x := r.try(n, mss[i], depth-1); x != nil {
			return x
		}
	}
	return nil
}

// moves lists changes that may make t hold (or not)
func (r *repairer) moves(m *Model, t *Term, want bool, d int) (out []move) {
	if d > 12 || (m.eval(t) != 0) == want {
		return nil
	}
	switch t.op {
	case OpVar, OpUF:
		return []move{{t, b2u(want)}}
	case OpNot:
		return r.moves(m, t.args[0], !want, d+1)
	case OpAnd, OpOr:
		for _, a := range t.args {
			out = append(out, r.moves(m, a, want, d+1)...)
		}
		return out
	case OpIte:
		if m.eval(t.args[0]) != 0 {
			return r.moves(m, t.args[1], want, d+1)
		}
		return r.moves(m, t.args[2], want, d+1)
	case OpEq:
		a, b := t.args[0], t.args[1]
		if a.w == 0 {
			return append(r.moves(m, a, m.eval(a) == 0, d+1), r.moves(m, b, m.eval(b) == 0, d+1)...)
		}
		av, bv := m.eval(a), m.eval(b)
		if want {
			return append(r.solve(m, a, bv, d), r.solve(m, b, av, d)...)
		}
		for _, k := range []uint64{1, ^uint64(0), 2, 1 << 20} {
			out = append(out, r.solve(m, a, bv+k, d)...)
			out = append(out, r.solve(m, b, av+k, d)...)
		}
		return out
	case OpUlt, OpUle, OpSlt, OpSle:
		a, b := t.args[0], t.args[1]
		strict := b2u(t.op == OpUlt || t.op == OpSlt)
		if !want {
			a, b = b, a
			strict = 1 - strict
		}
		av, bv := m.eval(a), m.eval(b)
		out = append(out, r.solve(m, a, bv-strict, d)...)
		out = append(out, r.solve(m, b, av+strict, d)...)
		for _, k := range []uint64{16, 4096, 1 << 24} {
			out = append(out, r.solve(m, b, av+k, d)...)
			out = append(out, r.solve(m, a, bv-k, d)...)
		}
		return out
	}
	return nil
}

func inverse(c uint64) uint64 { // of an odd number
	x := c
	for i := 0; i < 6; i++ {
		x *= 2 - c*x
	}
	return x
}

// solve lists changes that give t the value v
func (r *repairer) solve(m *Model, t *Term, v uint64, d int) (out []move) {
	if d > 12 {
		return nil
	}
	v &= mask(t.w)
	cur := m.eval(t)
	if cur == v {
		return nil
	}
	switch t.op {
	case OpVar, OpUF, OpMul:
		if t.name == "varlen" || isStrConst(t) {
			return nil
		}
		return []move{{t, v}}
	case OpLin:
		for i, a := range t.args {
			if c := t.cs[i]; c&1 == 1 {
				out = append(out, r.solve(m, a, m.eval(a)+inverse(c)*(v-cur), d+1)...)
			}
		}
	case OpZext:
		if a := t.args[0]; v == v&mask(a.w) {
			return r.solve(m, a, v, d+1)
		}
	case OpSext:
		if a := t.args[0]; uint64(sx(v&mask(a.w), a.w))&mask(t.w) == v {
			return r.solve(m, a, v, d+1)
		}
	case OpExtract:
		a := t.args[0]
		k := mask(t.w) << uint(t.lo)
		return r.solve(m, a, m.eval(a)&^k|v<<uint(t.lo), d+1)
	case OpIte:
		if m.eval(t.args[0]) != 0 {
			return r.solve(m, t.args[1], v, d+1)
		}
		return r.solve(m, t.args[2], v, d+1)
	case OpBvAnd:
		for i, a := range t.args {
			if len(t.args) == 2 && t.args[1-i].op == OpConst {
				if k := t.args[1-i].c; v&^k == 0 {
					out = append(out, r.solve(m, a, m.eval(a)&^k|v, d+1)...)
				}
			}
		}
	case OpBvNot:
		return r.solve(m, t.args[0], ^v, d+1)
	}
	return out
}

// repair looks for a model of fs close to the ones known
func (s *Solver) repair(fs []*Term) bool {
	type cand struct {
		m   *Model
		bad int
	}
	var cs []cand
	for _, m := range s.models {
		bad := 0
		for _, f := range fs {
			if m.eval(f) == 0 {
				if bad++; bad > 2 {
					break
				}
			}
		}
		if bad <= 2 {
			cs = append(cs, cand{m, bad})
		}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].bad < cs[j].bad })
	if len(cs) == 0 {
		return false
	}
	r := &repairer{fs: fs, ls: leaves(fs), left: 24}
	for _, c := range cs[:min(len(cs), 3)] {
		if n := r.try(c.m, nil, 3); n != nil {
			s.models = append([]*Model{n}, s.models...)
			if len(s.models) > maxModels {
				s.models = s.models[:maxModels]
			}
			return true
		}
	}
	return false
}
