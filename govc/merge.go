package main

// If-conversion: branches over side-effect free code which only compute a
// condition are joined again instead of splitting the path.

import (
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var noMerge = os.Getenv("GOVC_NOMERGE") != ""

func simpleInstr(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.BinOp:
		return i.Op != token.QUO && i.Op != token.REM && i.Op != token.SHL && i.Op != token.SHR
	case *ssa.UnOp:
		return i.Op == token.MUL || i.Op == token.NOT || i.Op == token.XOR || i.Op == token.SUB
	case *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Extract:
		return true
	case *ssa.Call:
		b, ok := i.Call.Value.(*ssa.Builtin)
		if ok {
			return b.Name() == "len" || b.Name() == "Add"
		}
		f := i.Call.StaticCallee()
		if f != nil && pkgPath(f) == vcPkg && (f.Name() == "VarintLen" || f.Name() == "Varint") {
			return true
		}
		return f != nil && (simpleFn(f, 0) || isContractFn(f) && mergeableFn(f))
	}
	return false
}

// isContractFn: a helper of the specifications, not code of the repository
func isContractFn(f *ssa.Function) bool {
	return f.Prog != nil && strings.HasPrefix(filepath.Base(f.Prog.Fset.Position(f.Pos()).Filename), "zz_contract_")
}

var simpleFns = map[*ssa.Function]int{}

// simpleFn: straight-line accessor
func simpleFn(f *ssa.Function, depth int) bool {
	switch simpleFns[f] {
	case 1:
		return true
	case 2:
		return false
	}
	ok := len(f.Blocks) == 1 && depth < 2
	if ok {
		for _, in := range f.Blocks[0].Instrs {
			if _, isRet := in.(*ssa.Return); isRet {
				continue
			}
			if !simpleInstr(in) {
				ok = false
			}
		}
	}
	if ok {
		simpleFns[f] = 1
	} else {
		simpleFns[f] = 2
	}
	return ok
}

var mergeFns = map[*ssa.Function]int{}

// mergeableFn: a loop-free, side-effect free function with a bool result
func mergeableFn(f *ssa.Function) bool {
	switch mergeFns[f] {
	case 1:
		return true
	case 2:
		return false
	}
	mergeFns[f] = 2 // not recursive
	r := f.Signature.Results()
	ok := r.Len() == 1 && isBoolT(r.At(0).Type()) && len(f.Blocks) <= 24
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, isRet := in.(*ssa.Return); !isRet && !simpleInstr(in) {
				ok = false
			}
		}
		for _, s := range b.Succs {
			if s.Index <= b.Index && s.Dominates(b) {
				ok = false
			}
		}
	}
	if ok {
		mergeFns[f] = 1
	} else {
		mergeFns[f] = 2
	}
	return ok
}

type mregion struct{ blocks map[*ssa.BasicBlock]bool }

// mergeRegion is the set of simple blocks entered only from b
func (w *World) mergeRegion(b *ssa.BasicBlock) *mregion {
	if r, ok := w.mregions[b]; ok {
		return r
	}
	loops := w.loops(b.Parent())
	blocks := map[*ssa.BasicBlock]bool{}
	for {
		grown := false
		cand := map[*ssa.BasicBlock]bool{}
		for _, s := range b.Succs {
			cand[s] = true
		}
		for x := range blocks {
			for _, s := range x.Succs {
				cand[s] = true
			}
		}
	next:
		for c := range cand {
			if blocks[c] || c == b || loops[c] != nil || len(c.Succs) == 0 {
				continue
			}
			for _, p := range c.Preds {
				if p != b && !blocks[p] {
					continue next
				}
			}
			onlyIf := false
			for _, in := range c.Instrs {
				if !simpleInstr(in) {
					continue next
				}
				if ph, ok := in.(*ssa.Phi); ok && !isBoolT(ph.Type()) {
					continue next
				}
				_ = onlyIf
			}
			blocks[c] = true
			grown = true
		}
		if !grown {
			break
		}
	}
	r := &mregion{blocks}
	if len(blocks) == 0 {
		r = nil
	}
	w.mregions[b] = r
	return r
}

func isBoolT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

type mpath struct {
	cs   []*Term
	vals []*Term
}

// mergeTree joins paths which form a tree of branches
func mergeTree(ps []mpath) (cover *Term, vals []*Term, ok bool) {
	if len(ps) == 1 {
		return tAnd(ps[0].cs...), ps[0].vals, true
	}
	for _, p := range ps {
		if len(p.cs) == 0 {
			return nil, nil, false
		}
	}
	c := ps[0].cs[0]
	nc := tNot(c)
	var yes, no []mpath
	for _, p := range ps {
		q := mpath{p.cs[1:], p.vals}
		switch p.cs[0] {
		case c:
			yes = append(yes, q)
		case nc:
			no = append(no, q)
		default:
			return nil, nil, false
		}
	}
	c1, v1, ok := mergeTree(yes)
	if !ok {
		return nil, nil, false
	}
	if len(no) == 0 {
		return tAnd(c, c1), v1, true
	}
	c2, v2, ok := mergeTree(no)
	if !ok {
		return nil, nil, false
	}
	vals = make([]*Term, len(v1))
	for i := range v1 {
		if v1[i].w == 0 {
			vals[i] = boolIte(c, v1[i], v2[i])
		} else {
			vals[i] = tIte(c, v1[i], v2[i])
		}
	}
	return boolIte(c, c1, c2), vals, true
}

func newFacts(o *State, pc *pcNode) []*Term {
	var cs []*Term
	for n := o.pc; n != nil && n != pc; n = n.next {
		cs = append(cs, n.t)
	}
	for a, b := 0, len(cs)-1; a < b; a, b = a+1, b-1 {
		cs[a], cs[b] = cs[b], cs[a]
	}
	return cs
}

// ifConvert runs the simple region behind the branch st stands at and joins
// the paths that leave it to the same block. nil: not applicable.
func (x *Exec) ifConvert(st *State, i *ssa.If) ([]*State, bool) {
	if noMerge || x.w.initMode {
		return nil, false
	}
	f := st.top()
	reg := x.w.mergeRegion(f.block)
	if reg == nil {
		return nil, false
	}
	if n := len(st.watch); n > 0 {
		// stay inside the loop being cut
		if w := st.watch[n-1]; w.depth == len(st.frames)-1 {
			for b := range reg.blocks {
				if !w.blocks[b] {
					return nil, false
				}
			}
		}
	}
	depth := len(st.frames)
	type arrival struct {
		st   *State
		from *ssa.BasicBlock
	}
	arr := map[*ssa.BasicBlock][]arrival{}
	var order []*ssa.BasicBlock
	arrive := func(s *State, from, to *ssa.BasicBlock) {
		if _, ok := arr[to]; !ok {
			order = append(order, to)
		}
		arr[to] = append(arr[to], arrival{s, from})
	}
	pc0 := st.pc
	work := []*State{st.clone()}
	work[0].top().ip-- // stand at the branch again
	first := true
	n := 0
	// the state moves through the region without the usual bookkeeping
	goTo := func(s *State, to *ssa.BasicBlock) {
		g := s.top()
		from := g.block
		if !reg.blocks[to] {
			arrive(s, from, to)
			s.ev = evDead
			return
		}
		pi := 0
		for k, p := range to.Preds {
			if p == from {
				pi = k
			}
		}
		var vals []Value
		ip := 0
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals = append(vals, s.get(ph.Edges[pi]))
			ip++
		}
		for k := range vals {
			g.env[to.Instrs[k].(*ssa.Phi)] = vals[k]
		}
		g.prev, g.block, g.ip = from, to, ip
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s.ev == evNone {
			n++
			if n > 2000 {
				return nil, false
			}
			if len(s.frames) > depth {
				fk := x.step(s)
				if len(fk) > 0 {
					return nil, false
				}
				continue
			}
			g := s.top()
			in := g.block.Instrs[g.ip]
			switch j := in.(type) {
			case *ssa.Jump:
				goTo(s, g.block.Succs[0])
			case *ssa.If:
				first = false
				c, ok := s.get(j.Cond).(*Term)
				if !ok {
					return nil, false
				}
				work = append(work, x.branch(s, c, func(q *State) { goTo(q, q.top().block.Succs[0]) }, func(q *State) { goTo(q, q.top().block.Succs[1]) })...)
			default:
				if fk := x.step(s); len(fk) > 0 {
					return nil, false
				}
				if s.ev != evNone {
					return nil, false
				}
			}
		}
	}
	_ = first
	var out []*State
	for _, to := range order {
		as := arr[to]
		if len(as) == 1 {
			s := as[0].st
			s.ev = evNone
			x.enter(s, to)
			out = append(out, s)
			continue
		}
		// values at the join: phis of the target and what the region defined
		var phis []*ssa.Phi
		for _, in := range to.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				phis = append(phis, ph)
			}
		}
		edge := func(from *ssa.BasicBlock) int {
			for k, p := range to.Preds {
				if p == from {
					return k
				}
			}
			return -1
		}
		var ps []mpath
		ok := true
		var same []Value // non-mergeable phis must agree
		for ai, a := range as {
			m := mpath{cs: newFacts(a.st, pc0)}
			for k, ph := range phis {
				v := a.st.get(ph.Edges[edge(a.from)])
				if t, isT := v.(*Term); isT && isBoolT(ph.Type()) {
					m.vals = append(m.vals, t)
					if ai == 0 {
						same = append(same, nil)
					}
					continue
				}
				m.vals = append(m.vals, tTrue)
				if ai == 0 {
					same = append(same, v)
				} else if same[k] == nil || !valEqSyn(same[k], v, ph.Type()) {
					ok = false
				}
			}
			ps = append(ps, m)
		}
		var cover *Term
		var vals []*Term
		if ok {
			cover, vals, ok = mergeTree(ps)
		}
		if !ok {
			for _, a := range as {
				a.st.ev = evNone
				x.enter(a.st, to)
				out = append(out, a.st)
			}
			continue
		}
		s := as[0].st
		s.ev = evNone
		var dead []ssa.Value
		for _, a := range as[1:] {
			for v, t := range s.top().env {
				u, has := a.st.top().env[v]
				if in, isI := v.(ssa.Instruction); isI && reg.blocks[in.Block()] {
					if !has || !valEqSyn(t, u, v.Type()) {
						dead = append(dead, v)
					}
				}
			}
		}
		s.pc = pc0
		s.assume(cover)
		// enter with the merged phis
		g := s.top()
		g.block = as[0].from
		x.enter(s, to)
		for _, v := range dead {
			delete(g.env, v)
		}
		if len(s.frames) == depth {
			for k, ph := range phis {
				if same[k] == nil {
					s.top().env[ph] = vals[k]
				}
			}
		}
		out = append(out, s)
	}
	return out, true
}
