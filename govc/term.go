package main

// Terms: hash-consed SMT terms over Bool and fixed-width bit-vectors with
// uninterpreted functions. 64-bit (and other width) sums are kept in a linear
// normal form so that index arithmetic is decided syntactically.

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar      // declared constant (name)
	OpUF       // uninterpreted function application (name, args)
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpLin // const + sum coef_i * arg_i
	OpMul // nonlinear product, args sorted
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBvAnd
	OpBvOr
	OpBvXor
	OpBvNot
	OpShl
	OpLshr
	OpAshr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpZext
	OpSext
	OpExtract // bits [lo, lo+w)
	OpConcat
)

type Term struct {
	scr  uint8 // scratchRoot: 1 no, 2 yes
	op   Op
	w    int // 0 = Bool
	c    uint64
	lo   int
	name string
	args []*Term
	cs   []uint64 // coefficients of OpLin
	id   int
}

type TermCtx struct {
	tab    map[string]*Term
	nextID int
	ufs    map[string]*ufDecl
	fresh  map[string]int
}

type ufDecl struct {
	args []int
	ret  int
}

func newTermCtx() *TermCtx {
	return &TermCtx{tab: map[string]*Term{}, ufs: map[string]*ufDecl{}, fresh: map[string]int{}}
}

var (
	tc    = newTermCtx()
	tTrue = mkTerm(&Term{op: OpConst, w: 0, c: 1})
	tFls  = mkTerm(&Term{op: OpConst, w: 0, c: 0})
)

func (t *Term) key() string {
	b := make([]byte, 0, 64)
	b = append(b, byte(t.op))
	b = strconv.AppendInt(b, int64(t.w), 10)
	b = append(b, ':')
	b = strconv.AppendUint(b, t.c, 16)
	b = append(b, ':')
	if t.lo != 0 {
		b = strconv.AppendInt(b, int64(t.lo), 10)
	}
	b = append(b, ':')
	b = append(b, t.name...)
	for _, a := range t.args {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.id), 10)
	}
	for _, c := range t.cs {
		b = append(b, ';')
		b = strconv.AppendUint(b, c, 16)
	}
	return string(b)
}

func mkTerm(t *Term) *Term {
	k := t.key()
	if x, ok := tc.tab[k]; ok {
		return x
	}
	tc.nextID++
	t.id = tc.nextID
	tc.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func bv(w int, c uint64) *Term { return mkTerm(&Term{op: OpConst, w: w, c: c & mask(w)}) }
func i64(c int64) *Term        { return bv(64, uint64(c)) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFls
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isC(c uint64) bool {
	return t.op == OpConst && t.c == c&mask(t.w) && t.w > 0
}

func sext64(c uint64, w int) int64 {
	if w >= 64 {
		return int64(c)
	}
	sh := uint(64 - w)
	return int64(c<<sh) >> sh
}

// fresh constant
func mkVar(name string, w int) *Term {
	return mkTerm(&Term{op: OpVar, w: w, name: name})
}

func freshName(prefix string) string {
	n := tc.fresh[prefix]
	tc.fresh[prefix] = n + 1
	return fmt.Sprintf("%s!%d", prefix, n)
}
func freshVar(prefix string, w int) *Term { return mkVar(freshName(prefix), w) }

func mkUF(name string, ret int, args ...*Term) *Term {
	if len(args) == 0 {
		return mkVar(name, ret)
	}
	d := tc.ufs[name]
	if d == nil {
		d = &ufDecl{ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.w)
		}
		tc.ufs[name] = d
	} else {
		if d.ret != ret || len(d.args) != len(args) {
			panic("UF signature mismatch " + name)
		}
		for i, a := range args {
			if a.w != d.args[i] {
				panic(fmt.Sprintf("UF signature mismatch %s arg %d: %d vs %d", name, i, a.w, d.args[i]))
			}
		}
	}
	return mkTerm(&Term{op: OpUF, w: ret, name: name, args: args})
}

// ---------- linear forms ----------

type lin struct {
	c uint64
	m map[*Term]uint64
}

func toLin(t *Term) lin {
	switch t.op {
	case OpConst:
		return lin{c: t.c}
	case OpLin:
		m := make(map[*Term]uint64, len(t.args))
		for i, a := range t.args {
			m[a] = t.cs[i]
		}
		return lin{c: t.c, m: m}
	}
	return lin{m: map[*Term]uint64{t: 1}}
}

func fromLin(l lin, w int) *Term {
	mk := mask(w)
	args := make([]*Term, 0, len(l.m))
	for a, c := range l.m {
		if c&mk != 0 {
			args = append(args, a)
		}
	}
	if len(args) == 0 {
		return bv(w, l.c)
	}
	if len(args) == 1 && l.c&mk == 0 && l.m[args[0]]&mk == 1 {
		return args[0]
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	cs := make([]uint64, len(args))
	for i, a := range args {
		cs[i] = l.m[a] & mk
	}
	return mkTerm(&Term{op: OpLin, w: w, c: l.c & mk, args: args, cs: cs})
}

func linAdd(a, b lin, k uint64) lin {
	m := make(map[*Term]uint64, len(a.m)+len(b.m))
	for t, c := range a.m {
		m[t] = c
	}
	for t, c := range b.m {
		m[t] += c * k
	}
	return lin{c: a.c + b.c*k, m: m}
}

func tAdd(a, b *Term) *Term { chk(a, b); return fromLin(linAdd(toLin(a), toLin(b), 1), a.w) }
func tSub(a, b *Term) *Term {
	chk(a, b)
	return fromLin(linAdd(toLin(a), toLin(b), ^uint64(0)), a.w)
}
func tNeg(a *Term) *Term { return tSub(bv(a.w, 0), a) }

func chk(a, b *Term) {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d: %s / %s", a.w, b.w, a, b))
	}
}

func tMul(a, b *Term) *Term {
	chk(a, b)
	la, lb := toLin(a), toLin(b)
	res := lin{c: la.c * lb.c, m: map[*Term]uint64{}}
	for t, c := range la.m {
		res.m[t] += c * lb.c
	}
	for t, c := range lb.m {
		res.m[t] += c * la.c
	}
	for t1, c1 := range la.m {
		for t2, c2 := range lb.m {
			res.m[mkMono(t1, t2, a.w)] += c1 * c2
		}
	}
	return fromLin(res, a.w)
}

func mkMono(a, b *Term, w int) *Term {
	var fs []*Term
	add := func(t *Term) {
		if t.op == OpMul {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	add(a)
	add(b)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return mkTerm(&Term{op: OpMul, w: w, args: fs})
}

// ---------- boolean ----------

func tNot(a *Term) *Term {
	if a.w != 0 {
		panic("tNot on non-bool")
	}
	switch a.op {
	case OpConst:
		return mkBool(a.c == 0)
	case OpNot:
		return a.args[0]
	case OpUlt:
		return tUle(a.args[1], a.args[0])
	case OpUle:
		return tUlt(a.args[1], a.args[0])
	case OpSlt:
		return tSle(a.args[1], a.args[0])
	case OpSle:
		return tSlt(a.args[1], a.args[0])
	}
	return mkTerm(&Term{op: OpNot, args: []*Term{a}})
}

func tAnd(xs ...*Term) *Term { return nary(OpAnd, xs) }
func tOr(xs ...*Term) *Term  { return nary(OpOr, xs) }

func nary(op Op, xs []*Term) *Term {
	unit, zero := tTrue, tFls
	if op == OpOr {
		unit, zero = tFls, tTrue
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.w != 0 {
			panic("nary on non-bool: " + x.String())
		}
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[tNot(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkTerm(&Term{op: op, args: out})
}

func tImp(a, b *Term) *Term { return tOr(tNot(a), b) }

func tIte(c, a, b *Term) *Term {
	chk(a, b)
	if c == tTrue {
		return a
	}
	if c == tFls {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == tTrue && b == tFls {
			return c
		}
		if a == tFls && b == tTrue {
			return tNot(c)
		}
		if a == tTrue {
			return tOr(c, b)
		}
		if b == tFls {
			return tAnd(c, a)
		}
		if a == tFls {
			return tAnd(tNot(c), b)
		}
		if b == tTrue {
			return tOr(tNot(c), a)
		}
	}
	if c.op == OpNot {
		return tIte(c.args[0], b, a)
	}
	return mkTerm(&Term{op: OpIte, w: a.w, args: []*Term{c, a, b}})
}

// isStrConst: the identity of a string literal's content. Literals have distinct
// identities; the solvers get a number for each.
func isStrConst(t *Term) bool {
	return t.op == OpVar && len(t.name) > 4 && t.name[:4] == "str:"
}

func strConstNum(t *Term) uint64 {
	h := sha256.Sum256([]byte(t.name))
	return binary.LittleEndian.Uint64(h[:])
}

func tEq(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.c == b.c)
	}
	if isStrConst(a) && isStrConst(b) {
		return tFls // different literals
	}
	if a.w == 0 {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFls {
			return tNot(b)
		}
		if b == tFls {
			return tNot(a)
		}
	} else {
		// linear difference
		if a.op == OpLin || b.op == OpLin {
			d := tSub(a, b)
			if d.isConst() {
				return mkBool(d.c == 0)
			}
			// canonical form: move to  (args) = const
			if d.op == OpLin {
				l := toLin(d)
				cst := l.c
				l.c = 0
				// sign normalisation on first coefficient
				x := fromLin(l, a.w)
				if x.op == OpLin && sext64(x.cs[0], a.w) < 0 {
					x = tNeg(x)
					cst = -cst
				}
				a, b = x, bv(a.w, -cst)
				if a.isConst() {
					return mkBool(a.c == b.c)
				}
			} else {
				a, b = d, bv(a.w, 0)
			}
		}
		if b.isConst() || a.isConst() {
			if a.isConst() {
				a, b = b, a
			}
			if a.op == OpIte && a.args[1].isConst() && a.args[2].isConst() {
				x, y := a.args[1].c == b.c, a.args[2].c == b.c
				switch {
				case x && y:
					return tTrue
				case x:
					return a.args[0]
				case y:
					return tNot(a.args[0])
				default:
					return tFls
				}
			}
			if a.op == OpUF && a.name == "varlen" {
				if b.c == 0 || b.c > 10 {
					return tFls
				}
				return tAnd(tNot(varlenLess(a.args[0], b.c)), varlenLess(a.args[0], b.c+1))
			}
			if a.op == OpZext {
				in := a.args[0]
				if b.c > mask(in.w) {
					return tFls
				}
				return tEq(in, bv(in.w, b.c))
			}
			if a.op == OpSext {
				in := a.args[0]
				lo := b.c & mask(in.w)
				if uint64(sext64(lo, in.w))&mask(a.w) != b.c {
					return tFls
				}
				return tEq(in, bv(in.w, lo))
			}
		}
		if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
			return tEq(a.args[0], b.args[0])
		}
		if a.op == OpSext && b.op == OpSext && a.args[0].w == b.args[0].w {
			return tEq(a.args[0], b.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm(&Term{op: OpEq, args: []*Term{a, b}})
}

func tNe(a, b *Term) *Term { return tNot(tEq(a, b)) }

// varlenLess: varlen(v) < k
func varlenLess(v *Term, k uint64) *Term {
	if k <= 1 {
		return tFls
	}
	if k > 10 {
		return tTrue
	}
	return tUlt(v, bv(64, 1<<(7*(k-1))))
}

// umax gives a cheap upper bound of the unsigned value
func umax(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpZext:
		return umax(t.args[0])
	case OpUF:
		if t.name == "varlen" {
			return 10
		}
	case OpBvAnd:
		a, b := umax(t.args[0]), umax(t.args[1])
		if a < b {
			return a
		}
		return b
	case OpLshr:
		if t.args[1].isConst() {
			if t.args[1].c >= 64 {
				return 0
			}
			return umax(t.args[0]) >> t.args[1].c
		}
	case OpURem:
		if t.args[1].isConst() && t.args[1].c > 0 {
			return t.args[1].c - 1
		}
	case OpIte:
		a, b := umax(t.args[1]), umax(t.args[2])
		if a > b {
			return a
		}
		return b
	case OpBvOr, OpBvXor:
		a, b := umax(t.args[0]), umax(t.args[1])
		return mask(bits.Len64(a | b))
	}
	return mask(t.w)
}

func tUlt(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return tFls
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.c < b.c)
	}
	if b.isConst() && b.c == 0 {
		return tFls
	}
	if b.isConst() && umax(a) < b.c {
		return tTrue
	}
	if a.isConst() && a.c >= umax(b) {
		return tFls
	}
	if a.op == OpUF && a.name == "varlen" && b.isConst() {
		return varlenLess(a.args[0], b.c)
	}
	if b.op == OpUF && b.name == "varlen" && a.isConst() {
		return tNot(varlenLess(b.args[0], a.c+1))
	}
	if a.isC(0) {
		return tNe(b, a)
	}
	if b.isC(1) {
		return tEq(a, bv(a.w, 0))
	}
	return mkTerm(&Term{op: OpUlt, args: []*Term{a, b}})
}

func tUle(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.c <= b.c)
	}
	if a.isC(0) {
		return tTrue
	}
	if b.isConst() && umax(a) <= b.c {
		return tTrue
	}
	if a.isConst() && a.c > umax(b) {
		return tFls
	}
	if a.op == OpUF && a.name == "varlen" && b.isConst() {
		return varlenLess(a.args[0], b.c+1)
	}
	if b.op == OpUF && b.name == "varlen" && a.isConst() {
		return tNot(varlenLess(b.args[0], a.c))
	}
	if b.isC(0) {
		return tEq(a, b)
	}
	return mkTerm(&Term{op: OpUle, args: []*Term{a, b}})
}

func nonneg(t *Term) bool { return umax(t) <= mask(t.w)>>1 }

func tSlt(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return tFls
	}
	if a.isConst() && b.isConst() {
		return mkBool(sext64(a.c, a.w) < sext64(b.c, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tUlt(a, b)
	}
	if b.isC(0) && nonneg(a) {
		return tFls
	}
	if a.isConst() && sext64(a.c, a.w) < 0 && nonneg(b) {
		return tTrue
	}
	return mkTerm(&Term{op: OpSlt, args: []*Term{a, b}})
}

func tSle(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return mkBool(sext64(a.c, a.w) <= sext64(b.c, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return tUle(a, b)
	}
	if a.isConst() && sext64(a.c, a.w) <= 0 && nonneg(b) {
		return tTrue
	}
	return mkTerm(&Term{op: OpSle, args: []*Term{a, b}})
}

// ---------- bit vectors ----------

func tBin(op Op, a, b *Term) *Term {
	chk(a, b)
	w := a.w
	m := mask(w)
	if a.isConst() && b.isConst() {
		x, y := a.c, b.c
		switch op {
		case OpBvAnd:
			return bv(w, x&y)
		case OpBvOr:
			return bv(w, x|y)
		case OpBvXor:
			return bv(w, x^y)
		case OpUDiv:
			if y != 0 {
				return bv(w, x/y)
			}
		case OpURem:
			if y != 0 {
				return bv(w, x%y)
			}
		case OpSDiv:
			if y != 0 && !(sext64(y, w) == -1) {
				return bv(w, uint64(sext64(x, w)/sext64(y, w)))
			}
		case OpSRem:
			if y != 0 && !(sext64(y, w) == -1) {
				return bv(w, uint64(sext64(x, w)%sext64(y, w)))
			}
		}
	}
	switch op {
	case OpBvAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == m {
				return a
			}
			if mx := umax(a); b.c&mask(bits.Len64(mx)) == mask(bits.Len64(mx)) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBvOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isC(0) || a == b {
			return a
		}
		if b.isC(m) {
			return b
		}
	case OpBvXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isC(0) {
			return a
		}
		if a == b {
			return bv(w, 0)
		}
	case OpUDiv:
		if b.isC(1) {
			return a
		}
		if b.isConst() && b.c != 0 && b.c&(b.c-1) == 0 {
			return tShift(OpLshr, a, bv(w, uint64(bits.TrailingZeros64(b.c))))
		}
	case OpURem:
		if b.isConst() && b.c != 0 && b.c&(b.c-1) == 0 {
			return tBin(OpBvAnd, a, bv(w, b.c-1))
		}
	}
	if op == OpBvAnd || op == OpBvOr || op == OpBvXor {
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	return mkTerm(&Term{op: op, w: w, args: []*Term{a, b}})
}

func tBvNot(a *Term) *Term {
	if a.isConst() {
		return bv(a.w, ^a.c)
	}
	if a.op == OpBvNot {
		return a.args[0]
	}
	return mkTerm(&Term{op: OpBvNot, w: a.w, args: []*Term{a}})
}

// tShift: shift amount has the same width, SMT semantics (>= w gives 0 / sign)
func tShift(op Op, a, s *Term) *Term {
	chk(a, s)
	w := a.w
	if s.isC(0) {
		return a
	}
	if s.isConst() {
		if s.c >= uint64(w) {
			if op == OpAshr {
				s = bv(w, uint64(w-1))
			} else {
				return bv(w, 0)
			}
		}
		if a.isConst() {
			switch op {
			case OpShl:
				return bv(w, a.c<<s.c)
			case OpLshr:
				return bv(w, a.c>>s.c)
			case OpAshr:
				return bv(w, uint64(sext64(a.c, w)>>s.c))
			}
		}
		switch op {
		case OpShl:
			return tMul(a, bv(w, 1<<s.c))
		case OpLshr:
			if umax(a)>>s.c == 0 {
				return bv(w, 0)
			}
			if a.op == OpLshr && a.args[1].isConst() {
				t := a.args[1].c + s.c
				if t >= uint64(w) {
					return bv(w, 0)
				}
				return tShift(OpLshr, a.args[0], bv(w, t))
			}
		case OpAshr:
			if nonneg(a) {
				return tShift(OpLshr, a, s)
			}
		}
	}
	return mkTerm(&Term{op: op, w: w, args: []*Term{a, s}})
}

func tZext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if w < a.w {
		return tExtract(a, 0, w)
	}
	if a.isConst() {
		return bv(w, a.c)
	}
	if a.op == OpZext {
		return tZext(a.args[0], w)
	}
	return mkTerm(&Term{op: OpZext, w: w, args: []*Term{a}})
}

func tSext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if w < a.w {
		return tExtract(a, 0, w)
	}
	if a.isConst() {
		return bv(w, uint64(sext64(a.c, a.w)))
	}
	if nonneg(a) {
		return tZext(a, w)
	}
	if a.op == OpSext {
		return tSext(a.args[0], w)
	}
	return mkTerm(&Term{op: OpSext, w: w, args: []*Term{a}})
}

func tExtract(a *Term, lo, w int) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return bv(w, a.c>>uint(lo))
	}
	switch a.op {
	case OpExtract:
		return tExtract(a.args[0], a.lo+lo, w)
	case OpZext:
		in := a.args[0]
		if lo >= in.w {
			return bv(w, 0)
		}
		if lo+w <= in.w {
			return tExtract(in, lo, w)
		}
		if lo == 0 {
			return tZext(in, w)
		}
	case OpSext:
		in := a.args[0]
		if lo+w <= in.w {
			return tExtract(in, lo, w)
		}
		if lo == 0 {
			return tSext(in, w)
		}
	case OpLin:
		if lo == 0 {
			l := lin{c: a.c, m: map[*Term]uint64{}}
			for i, x := range a.args {
				y := toLin(tExtract(x, 0, w))
				l = linAdd(l, y, a.cs[i])
			}
			return fromLin(l, w)
		}
	case OpBvAnd, OpBvOr, OpBvXor:
		return tBin(a.op, tExtract(a.args[0], lo, w), tExtract(a.args[1], lo, w))
	case OpBvNot:
		return tBvNot(tExtract(a.args[0], lo, w))
	case OpIte:
		return tIte(a.args[0], tExtract(a.args[1], lo, w), tExtract(a.args[2], lo, w))
	case OpLshr:
		if a.args[1].isConst() && lo+w+int(a.args[1].c) <= a.w {
			return tExtract(a.args[0], lo+int(a.args[1].c), w)
		}
	}
	return mkTerm(&Term{op: OpExtract, w: w, lo: lo, args: []*Term{a}})
}

// ---------- printing ----------

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor", OpBvNot: "bvnot",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat",
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func quoteSym(s string) string { return "|" + symEsc.Replace(s) + "|" }

var symEsc = strings.NewReplacer("%", "%25", "|", "%7c", "\\", "%5c", "\n", "%0a", "\r", "%0d")

// smt renders one node given the rendering of its children
func (t *Term) smt(ch func(*Term) string) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.c != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case OpVar:
		return quoteSym(t.name)
	case OpUF:
		var b strings.Builder
		b.WriteString("(" + quoteSym(t.name))
		for _, a := range t.args {
			b.WriteString(" " + ch(a))
		}
		b.WriteString(")")
		return b.String()
	case OpLin:
		var parts []string
		for i, a := range t.args {
			c := t.cs[i]
			s := ch(a)
			switch {
			case c == 1:
			case c == mask(t.w):
				s = "(bvneg " + s + ")"
			case c&(c-1) == 0:
				s = fmt.Sprintf("(bvshl %s (_ bv%d %d))", s, bits.TrailingZeros64(c), t.w)
			default:
				s = fmt.Sprintf("(bvmul (_ bv%d %d) %s)", c, t.w, s)
			}
			parts = append(parts, s)
		}
		if t.c != 0 {
			parts = append(parts, fmt.Sprintf("(_ bv%d %d)", t.c, t.w))
		}
		r := parts[0]
		for _, p := range parts[1:] {
			r = "(bvadd " + r + " " + p + ")"
		}
		return r
	case OpMul:
		r := ch(t.args[0])
		for _, a := range t.args[1:] {
			// nonlinear products are kept uninterpreted (sound: fewer facts)
			r = fmt.Sprintf("(|mul%d| %s %s)", t.w, r, ch(a))
		}
		return r
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, ch(t.args[0]))
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, ch(t.args[0]))
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.lo+t.w-1, t.lo, ch(t.args[0]))
	}
	var b strings.Builder
	b.WriteString("(" + opNames[t.op])
	for _, a := range t.args {
		b.WriteString(" " + ch(a))
	}
	b.WriteString(")")
	return b.String()
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	d := 0
	var f func(t *Term) string
	f = func(t *Term) string {
		d++
		defer func() { d-- }()
		if d > 12 {
			return "..."
		}
		if t.op == OpConst && t.w > 0 {
			if t.w == 64 {
				return strconv.FormatInt(int64(t.c), 10)
			}
			return strconv.FormatUint(t.c, 10)
		}
		return t.smt(f)
	}
	return f(t)
}

// walk visits every node once (children first)
func walk(ts []*Term, seen map[*Term]bool, f func(*Term)) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// subst replaces a set of terms
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OpUF:
		return mkUF(t.name, t.w, args...)
	case OpNot:
		return tNot(args[0])
	case OpAnd:
		return tAnd(args...)
	case OpOr:
		return tOr(args...)
	case OpEq:
		return tEq(args[0], args[1])
	case OpIte:
		return tIte(args[0], args[1], args[2])
	case OpLin:
		r := bv(t.w, t.c)
		for i, a := range args {
			r = tAdd(r, tMul(a, bv(t.w, t.cs[i])))
		}
		return r
	case OpMul:
		r := args[0]
		for _, a := range args[1:] {
			r = tMul(r, a)
		}
		return r
	case OpUDiv, OpURem, OpSDiv, OpSRem, OpBvAnd, OpBvOr, OpBvXor:
		return tBin(t.op, args[0], args[1])
	case OpBvNot:
		return tBvNot(args[0])
	case OpShl, OpLshr, OpAshr:
		return tShift(t.op, args[0], args[1])
	case OpUlt:
		return tUlt(args[0], args[1])
	case OpUle:
		return tUle(args[0], args[1])
	case OpSlt:
		return tSlt(args[0], args[1])
	case OpSle:
		return tSle(args[0], args[1])
	case OpZext:
		return tZext(args[0], t.w)
	case OpSext:
		return tSext(args[0], t.w)
	case OpExtract:
		return tExtract(args[0], t.lo, t.w)
	}
	panic("rebuild")
}
