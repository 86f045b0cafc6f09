package main

import "sort"

// A small exact simplex (general form, Bland's rule) which decides whether a
// conjunction of linear inequalities has a rational solution. Only "no" is used.

type rat struct{ n, d int64 } // d > 0

type lpOverflow struct{}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mul64(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	r := a * b
	if r/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		panic(lpOverflow{})
	}
	return r
}

func add64(a, b int64) int64 {
	r := a + b
	if (a > 0 && b > 0 && r <= 0) || (a < 0 && b < 0 && r >= 0) {
		panic(lpOverflow{})
	}
	return r
}

func mkRat(n, d int64) rat {
	if n == 0 {
		return rat{0, 1}
	}
	if n == -1<<63 || d == -1<<63 {
		panic(lpOverflow{})
	}
	if d < 0 {
		n, d = -n, -d
	}
	if d == 1 {
		return rat{n, d}
	}
	g := gcd64(n, d)
	return rat{n / g, d / g}
}

func (a rat) add(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{add64(a.n, b.n), 1}
	}
	return mkRat(add64(mul64(a.n, b.d), mul64(b.n, a.d)), mul64(a.d, b.d))
}
func (a rat) mul(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{mul64(a.n, b.n), 1}
	}
	return mkRat(mul64(a.n, b.n), mul64(a.d, b.d))
}
func (a rat) neg() rat      { return rat{-a.n, a.d} }
func (a rat) inv() rat      { return mkRat(a.d, a.n) }
func (a rat) sub(b rat) rat { return a.add(b.neg()) }
func (a rat) less(b rat) bool {
	return a.sub(b).n < 0
}

type lp struct {
	n      int // structural variables
	lo, hi []rat
	hasHi  []bool
	hasLo  []bool
	rows   [][]rat // basic variable i = sum rows[i][j] * nonbasic j
	basic  []int   // variable of row i
	nonb   []int   // variable of column j
	val    []rat
}

// infeasible: atoms x_j in [0, ub_j] (ub < 0: none) and rows c + sum k x >= 0
// have no solution
func infeasible(ubs []int64, cons []int64, rows [][]int64) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(lpOverflow); !ok {
				panic(r)
			}
			res = false
		}
	}()
	n, m := len(ubs), len(rows)
	p := &lp{n: n}
	p.lo = make([]rat, n+m)
	p.hi = make([]rat, n+m)
	p.hasHi = make([]bool, n+m)
	p.val = make([]rat, n+m)
	for j := range p.val {
		p.val[j] = rat{0, 1}
		p.lo[j] = rat{0, 1}
	}
	for j, u := range ubs {
		if u >= 0 {
			p.hi[j], p.hasHi[j] = rat{u, 1}, true
		}
		p.nonb = append(p.nonb, j)
	}
	for i, r := range rows {
		row := make([]rat, n)
		for j, k := range r {
			row[j] = rat{k, 1}
		}
		p.rows = append(p.rows, row)
		p.basic = append(p.basic, n+i)
		p.lo[n+i] = rat{-cons[i], 1}
	}
	for steps := 0; steps < 300; steps++ {
		// the violated basic variable of least index
		bi := -1
		for i, v := range p.basic {
			if p.val[v].less(p.lo[v]) || p.hasHi[v] && p.hi[v].less(p.val[v]) {
				if bi < 0 || v < p.basic[bi] {
					bi = i
				}
			}
		}
		if bi < 0 {
			return false
		}
		v := p.basic[bi]
		up := p.val[v].less(p.lo[v])
		target := p.lo[v]
		if !up {
			target = p.hi[v]
		}
		bj := -1
		for j, u := range p.nonb {
			a := p.rows[bi][j]
			if a.n == 0 {
				continue
			}
			canUp := !p.hasHi[u] || p.val[u].less(p.hi[u])
			canDown := p.lo[u].less(p.val[u])
			if up && (a.n > 0 && canUp || a.n < 0 && canDown) || !up && (a.n > 0 && canDown || a.n < 0 && canUp) {
				if bj < 0 || u < p.nonb[bj] {
					bj = j
				}
			}
		}
		if bj < 0 {
			return true
		}
		p.pivot(bi, bj, target)
	}
	return false
}

func (p *lp) pivot(bi, bj int, target rat) {
	v, u := p.basic[bi], p.nonb[bj]
	a := p.rows[bi][bj]
	theta := target.sub(p.val[v]).mul(a.inv())
	p.val[v] = target
	p.val[u] = p.val[u].add(theta)
	for i, w := range p.basic {
		if i != bi && p.rows[i][bj].n != 0 {
			p.val[w] = p.val[w].add(p.rows[i][bj].mul(theta))
		}
	}
	// u = (v - sum others) / a
	inv := a.inv()
	row := p.rows[bi]
	for j := range row {
		if j == bj {
			row[j] = inv
		} else if row[j].n != 0 {
			row[j] = row[j].mul(inv).neg()
		}
	}
	for i := range p.rows {
		if i == bi {
			continue
		}
		k := p.rows[i][bj]
		if k.n == 0 {
			continue
		}
		r := p.rows[i]
		for j := range r {
			if j == bj {
				r[j] = k.mul(inv)
			} else if row[j].n != 0 {
				r[j] = r[j].add(k.mul(row[j]))
			}
		}
	}
	p.basic[bi], p.nonb[bj] = u, v
}

// linear: l >= 0 follows from the order facts and bounds (rationally)
func (s *factSum) linear(l ilin) bool {
	if len(l.m) == 0 {
		return l.c >= 0
	}
	idx := map[*Term]int{}
	var atoms []*Term
	addAtoms := func(f ilin) {
		for t := range f.m {
			if _, ok := idx[t]; !ok {
				idx[t] = len(atoms)
				atoms = append(atoms, t)
			}
		}
	}
	addAtoms(l)
	used := make([]bool, len(s.ord))
	var fs []ilin
	for changed := true; changed; {
		changed = false
		for i, f := range s.ord {
			if used[i] {
				continue
			}
			for t := range f.m {
				if _, ok := idx[t]; ok {
					used[i], changed = true, true
					fs = append(fs, f)
					addAtoms(f)
					break
				}
			}
		}
	}
	if len(fs) == 0 || len(fs) > 80 || len(atoms) > 60 {
		return false
	}
	// stable variable order: map iteration must not decide what is proved
	sortTerms(atoms)
	for i, t := range atoms {
		idx[t] = i
	}
	ubs := make([]int64, len(atoms))
	for i, t := range atoms {
		ubs[i] = -1
		if u := s.upper(t); u < 1<<62 {
			ubs[i] = int64(u)
		}
	}
	vec := func(f ilin, sign int64) []int64 {
		r := make([]int64, len(atoms))
		for t, k := range f.m {
			r[idx[t]] = sign * k
		}
		return r
	}
	var cons []int64
	var rows [][]int64
	for _, f := range fs {
		cons = append(cons, f.c)
		rows = append(rows, vec(f, 1))
	}
	// -l - 1 >= 0
	cons = append(cons, -l.c-1)
	rows = append(rows, vec(l, -1))
	return infeasible(ubs, cons, rows)
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
