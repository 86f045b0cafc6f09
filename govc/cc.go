package main

import "strconv"

// Congruence closure and unit propagation over the facts of a path. It decides
// most branch conditions and equalities without the solver; it only ever adds
// consequences of the facts.

type closure struct {
	par   map[*Term]*Term   // union-find; absent: its own representative
	size  map[*Term]int     // of a representative
	cst   map[*Term]*Term   // constant in the class of a representative
	use   map[*Term][]*Term // nodes with an argument in the class
	sig   map[sigKey]*Term
	ors   []*Term // disjunctions not yet decided
	beqs  []*Term // boolean equalities not yet decided
	ites  []*Term
	units []*Term // facts derived by propagation
	drv   bool
	dead  bool
}

type sigKey struct {
	t       *Term // shape: a representative node (by shape id)
	a, b, c *Term
	rest    string
}

var shapeTab = map[string]*Term{}

// shape identifies the operator of t
func shape(t *Term) *Term {
	if s, ok := shapeMemo[t]; ok {
		return s
	}
	x := &Term{op: t.op, w: t.w, c: t.c, lo: t.lo, name: t.name, cs: t.cs}
	k := x.key()
	s, ok := shapeTab[k]
	if !ok {
		s = t
		shapeTab[k] = t
	}
	shapeMemo[t] = s
	return s
}

var shapeMemo = map[*Term]*Term{}

func newClosure() *closure {
	return &closure{par: map[*Term]*Term{}, size: map[*Term]int{}, cst: map[*Term]*Term{}, use: map[*Term][]*Term{}, sig: map[sigKey]*Term{}}
}

func (c *closure) clone() *closure {
	n := &closure{
		par: make(map[*Term]*Term, len(c.par)+16), size: make(map[*Term]int, len(c.size)+16),
		cst: make(map[*Term]*Term, len(c.cst)+16), use: make(map[*Term][]*Term, len(c.use)+16),
		sig: make(map[sigKey]*Term, len(c.sig)+16), dead: c.dead,
	}
	for k, v := range c.par {
		n.par[k] = v
	}
	for k, v := range c.size {
		n.size[k] = v
	}
	for k, v := range c.cst {
		n.cst[k] = v
	}
	for k, v := range c.use {
		n.use[k] = v[:len(v):len(v)]
	}
	for k, v := range c.sig {
		n.sig[k] = v
	}
	n.ors = append(n.ors, c.ors...)
	n.beqs = append(n.beqs, c.beqs...)
	n.ites = append(n.ites, c.ites...)
	n.units = append(n.units, c.units...)
	return n
}

func (c *closure) find(t *Term) *Term {
	for {
		p, ok := c.par[t]
		if !ok || p == t {
			return t
		}
		t = p
	}
}

func isNode(t *Term) bool {
	switch t.op {
	case OpConst, OpVar, OpAnd, OpOr, OpNot:
		return false
	}
	return true
}

// add registers t and its subterms
func (c *closure) add(t *Term) {
	if _, ok := c.par[t]; ok {
		return
	}
	c.par[t] = t
	c.size[t] = 1
	if t.op == OpConst {
		c.cst[t] = t
		return
	}
	for _, a := range t.args {
		c.add(a)
	}
	if !isNode(t) {
		return
	}
	if t.op == OpIte {
		c.ites = append(c.ites, t)
	}
	k := c.sigOf(t)
	if o, ok := c.sig[k]; ok {
		c.hook(t)
		c.merge(o, t)
		return
	}
	c.sig[k] = t
	c.hook(t)
}

func (c *closure) hook(t *Term) {
	for _, a := range t.args {
		r := c.find(a)
		u := c.use[r]
		c.use[r] = append(u[:len(u):len(u)], t)
	}
}

func (c *closure) sigOf(t *Term) sigKey {
	k := sigKey{t: shape(t)}
	for i, a := range t.args {
		r := c.find(a)
		switch i {
		case 0:
			k.a = r
		case 1:
			k.b = r
		case 2:
			k.c = r
		default:
			k.rest += strconv.Itoa(r.id) + ","
		}
	}
	return k
}

func (c *closure) merge(a, b *Term) {
	type pr struct{ a, b *Term }
	work := []pr{{a, b}}
	for len(work) > 0 && !c.dead {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		a, b := c.find(p.a), c.find(p.b)
		if a == b {
			continue
		}
		if c.size[a] < c.size[b] {
			a, b = b, a
		}
		ca, cb := c.cst[a], c.cst[b]
		if ca != nil && cb != nil && ca != cb {
			c.dead = true
			return
		}
		c.par[b] = a
		c.size[a] += c.size[b]
		if ca == nil && cb != nil {
			c.cst[a] = cb
		}
		ub := c.use[b]
		delete(c.use, b)
		ua := c.use[a]
		c.use[a] = append(ua[:len(ua):len(ua)], ub...)
		for _, t := range ub {
			k := c.sigOf(t)
			if o, ok := c.sig[k]; ok {
				if c.find(o) != c.find(t) {
					work = append(work, pr{o, t})
				}
			} else {
				c.sig[k] = t
			}
		}
	}
}

func (c *closure) constOf(t *Term) *Term {
	if t.op == OpConst {
		return t
	}
	return c.cst[c.find(t)]
}

// val: +1 the formula holds, -1 its negation does, 0 not known
func (c *closure) val(t *Term) int {
	if t.op == OpConst {
		if t == tTrue {
			return 1
		}
		return -1
	}
	if k := c.cst[c.find(t)]; k != nil {
		if k == tTrue {
			return 1
		}
		return -1
	}
	switch t.op {
	case OpNot:
		return -c.val(t.args[0])
	case OpAnd:
		all := 1
		for _, a := range t.args {
			switch c.val(a) {
			case -1:
				return -1
			case 0:
				all = 0
			}
		}
		return all
	case OpOr:
		all := -1
		for _, a := range t.args {
			switch c.val(a) {
			case 1:
				return 1
			case 0:
				all = 0
			}
		}
		return all
	case OpIte:
		switch c.val(t.args[0]) {
		case 1:
			return c.val(t.args[1])
		case -1:
			return c.val(t.args[2])
		}
	case OpEq:
		a, b := t.args[0], t.args[1]
		if a.w == 0 {
			return c.val(a) * c.val(b)
		}
		if c.find(a) == c.find(b) {
			return 1
		}
		if x, y := c.constOf(a), c.constOf(b); x != nil && y != nil && x != y {
			return -1
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		a, b := t.args[0], t.args[1]
		if x, y := c.constOf(a), c.constOf(b); x != nil && y != nil {
			r := false
			switch t.op {
			case OpUlt:
				r = x.c < y.c
			case OpUle:
				r = x.c <= y.c
			case OpSlt:
				r = sext64(x.c, x.w) < sext64(y.c, y.w)
			case OpSle:
				r = sext64(x.c, x.w) <= sext64(y.c, y.w)
			}
			if r {
				return 1
			}
			return -1
		}
		if c.find(a) == c.find(b) {
			if t.op == OpUle || t.op == OpSle {
				return 1
			}
			return -1
		}
		if n := tNot(t); c.cst[c.find(n)] == tTrue {
			return -1
		}
	}
	return 0
}

// assert adds a fact (propagate has to follow)
func (c *closure) assert(t *Term) {
	if c.dead {
		return
	}
	switch t.op {
	case OpConst:
		if t == tFls {
			c.dead = true
		}
		return
	case OpAnd:
		for _, a := range t.args {
			c.assert(a)
		}
		return
	case OpNot:
		a := t.args[0]
		switch a.op {
		case OpOr:
			for _, b := range a.args {
				c.assert(tNot(b))
			}
			return
		case OpAnd:
			c.add(a)
			var ns []*Term
			for _, b := range a.args {
				ns = append(ns, tNot(b))
			}
			c.merge(a, tFls)
			c.assert(tOr(ns...))
			return
		}
		if c.drv {
			c.units = append(c.units, t)
		}
		c.add(tFls)
		c.add(tTrue)
		c.add(t)
		c.merge(a, tFls)
		c.merge(t, tTrue)
		if a.op == OpEq && a.args[0].w == 0 {
			c.beqs = append(c.beqs, t)
		}
		return
	}
	if c.drv {
		c.units = append(c.units, t)
	}
	c.add(tFls)
	c.add(tTrue)
	c.add(t)
	c.merge(t, tTrue)
	switch t.op {
	case OpOr:
		c.ors = append(c.ors, t)
	case OpEq:
		if t.args[0].w == 0 {
			c.beqs = append(c.beqs, t)
		} else {
			c.merge(t.args[0], t.args[1])
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		n := tNot(t)
		c.add(n)
		c.merge(n, tFls)
	}
}

func (c *closure) propagate() {
	c.drv = true
	defer func() { c.drv = false }()
	for again := true; again && !c.dead; {
		again = false
		ors := c.ors
		c.ors = nil
		for _, o := range ors {
			var left *Term
			n := 0
			sat := false
			for _, a := range o.args {
				switch c.val(a) {
				case 1:
					sat = true
				case 0:
					n++
					left = a
				}
				if sat {
					break
				}
			}
			switch {
			case sat:
			case n == 0:
				c.dead = true
				return
			case n == 1:
				c.assert(left)
				again = true
			default:
				c.ors = append(c.ors, o)
			}
			if c.dead {
				return
			}
		}
		beqs := c.beqs
		c.beqs = nil
		for _, e := range beqs {
			neg := e.op == OpNot
			q := e
			if neg {
				q = e.args[0]
			}
			a, b := q.args[0], q.args[1]
			va, vb := c.val(a), c.val(b)
			switch {
			case va == 0 && vb == 0:
				c.beqs = append(c.beqs, e)
				continue
			case va == 0:
				if vb > 0 != neg {
					c.assert(a)
				} else {
					c.assert(tNot(a))
				}
				again = true
			case vb == 0:
				if va > 0 != neg {
					c.assert(b)
				} else {
					c.assert(tNot(b))
				}
				again = true
			case (va == vb) == neg:
				c.dead = true
				return
			}
		}
		ites := c.ites
		c.ites = nil
		for _, t := range ites {
			switch c.val(t.args[0]) {
			case 1:
				c.merge(t, t.args[1])
				again = true
			case -1:
				c.merge(t, t.args[2])
				again = true
			default:
				c.ites = append(c.ites, t)
			}
		}
	}
}

// closure of the facts of a path
func (st *State) closure() *closure {
	return st.x.closureOf(st.pc)
}

func (x *Exec) closureOf(pc *pcNode) *closure {
	if c, ok := x.ccs[pc]; ok {
		return c
	}
	var c *closure
	if pc == nil {
		c = newClosure()
		c.add(tTrue)
		c.add(tFls)
	} else {
		// from the nearest path prefix at hand
		var todo []*Term
		n := pc
		for n != nil && x.ccs[n] == nil {
			todo = append(todo, n.t)
			n = n.next
		}
		if n == nil {
			c = newClosure()
			c.add(tTrue)
			c.add(tFls)
		} else {
			c = x.ccs[n].clone()
		}
		for i := len(todo) - 1; i >= 0; i-- {
			c.assert(todo[i])
		}
		c.propagate()
	}
	if len(x.ccs) > 600 {
		x.ccs = map[*pcNode]*closure{}
	}
	x.ccs[pc] = c
	return c
}

// holds: +1/-1 if the closure decides t
func (c *closure) holds(t *Term) int {
	if c.dead {
		return 0
	}
	if v := c.val(t); v != 0 {
		return v
	}
	c.add(t)
	c.propagate()
	if c.dead {
		return 0
	}
	return c.val(t)
}
