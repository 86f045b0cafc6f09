package main

// Models of earlier satisfiable queries: a query one of them satisfies needs no
// solver. A model is only ever used to answer "satisfiable".

import (
	"math/bits"
	"os"
	"strconv"
	"strings"
)

type Model struct {
	vars map[string]uint64 // by variable name
	ufs  map[string]uint64 // by function name and argument values
	memo map[*Term]uint64
	used int
}

func ufKey(name string, as ...uint64) string {
	b := make([]byte, 0, len(name)+18*len(as))
	b = append(b, name...)
	for _, a := range as {
		b = append(b, ',')
		b = strconv.AppendUint(b, a, 16)
	}
	return string(b)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func sx(v uint64, w int) int64 { return int64(v<<uint(64-w)) >> uint(64-w) }

// eval extends the model with 0 for whatever it does not mention
func (m *Model) eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.c
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	var v uint64
	a := func(i int) uint64 { return m.eval(t.args[i]) }
	switch t.op {
	case OpVar:
		if isStrConst(t) {
			v = strConstNum(t)
			break
		}
		v = m.vars[t.name]
	case OpUF:
		if t.name == "varlen" {
			v = uint64(max(1, (bits.Len64(a(0))+6)/7))
			break
		}
		as := make([]uint64, len(t.args))
		for i := range as {
			as[i] = a(i)
		}
		v = m.ufs[ufKey(t.name, as...)]
	case OpNot:
		v = 1 - a(0)
	case OpAnd:
		v = 1
		for i := range t.args {
			if a(i) == 0 {
				v = 0
				break
			}
		}
	case OpOr:
		for i := range t.args {
			if a(i) == 1 {
				v = 1
				break
			}
		}
	case OpEq:
		v = b2u(a(0) == a(1))
	case OpIte:
		if a(0) != 0 {
			v = a(1)
		} else {
			v = a(2)
		}
	case OpLin:
		v = t.c
		for i := range t.args {
			v += t.cs[i] * a(i)
		}
	case OpMul:
		v = a(0)
		for i := 1; i < len(t.args); i++ {
			v = m.ufs[ufKey("mul"+strconv.Itoa(t.w), v, a(i))]
		}
	case OpUDiv:
		if y := a(1); y == 0 {
			v = ^uint64(0)
		} else {
			v = a(0) / y
		}
	case OpURem:
		if y := a(1); y == 0 {
			v = a(0)
		} else {
			v = a(0) % y
		}
	case OpSDiv:
		x, y := sx(a(0), t.w), sx(a(1), t.w)
		switch {
		case y == 0 && x < 0:
			v = 1
		case y == 0, y == -1 && x == 1:
			v = ^uint64(0)
		case y == -1:
			v = uint64(-x)
		default:
			v = uint64(x / y)
		}
	case OpSRem:
		x, y := sx(a(0), t.w), sx(a(1), t.w)
		switch {
		case y == 0:
			v = uint64(x)
		case y == -1:
		default:
			v = uint64(x % y)
		}
	case OpBvAnd, OpBvOr, OpBvXor:
		v = a(0)
		for i := 1; i < len(t.args); i++ {
			switch t.op {
			case OpBvAnd:
				v &= a(i)
			case OpBvOr:
				v |= a(i)
			default:
				v ^= a(i)
			}
		}
	case OpBvNot:
		v = ^a(0)
	case OpShl:
		if s := a(1); s < uint64(t.w) {
			v = a(0) << s
		}
	case OpLshr:
		if s := a(1); s < uint64(t.w) {
			v = a(0) >> s
		}
	case OpAshr:
		v = uint64(sx(a(0), t.w) >> min(a(1), uint64(t.w-1)))
	case OpUlt:
		v = b2u(a(0) < a(1))
	case OpUle:
		v = b2u(a(0) <= a(1))
	case OpSlt:
		w := t.args[0].w
		v = b2u(sx(a(0), w) < sx(a(1), w))
	case OpSle:
		w := t.args[0].w
		v = b2u(sx(a(0), w) <= sx(a(1), w))
	case OpZext:
		v = a(0)
	case OpSext:
		v = uint64(sx(a(0), t.args[0].w))
	case OpExtract:
		v = a(0) >> uint(t.lo)
	case OpConcat:
		for i, x := range t.args {
			if i > 0 {
				v <<= uint(x.w)
			}
			v |= a(i)
		}
	default:
		panic("model: operator")
	}
	if t.w > 0 {
		v &= mask(t.w)
	}
	m.memo[t] = v
	return v
}

func (m *Model) satisfies(fs []*Term) bool {
	for _, f := range fs {
		if m.eval(f) == 0 {
			return false
		}
	}
	return true
}

const maxModels = 64

func (s *Solver) tryModels(fs []*Term) bool {
	for i, m := range s.models {
		if m.satisfies(fs) {
			copy(s.models[1:i+1], s.models[:i])
			s.models[0] = m
			return true
		}
	}
	return false
}

// leaves lists the variables and applications below fs, children first
func leaves(fs []*Term) (r []*Term) {
	walk(fs, map[*Term]bool{}, func(t *Term) {
		if t.op == OpVar || t.op == OpMul || t.op == OpUF && t.name != "varlen" {
			r = append(r, t)
		}
	})
	return r
}

// readModel asks for the values of ls after a "sat" answer
func (s *Solver) readModel(fs, ls []*Term) {
	var txt strings.Builder
	depth := 0
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return
		}
		if strings.HasPrefix(line, "(error") {
			return
		}
		txt.WriteString(line)
		inq := false
		for _, c := range line {
			switch {
			case c == '|':
				inq = !inq
			case inq:
			case c == '(':
				depth++
			case c == ')':
				depth--
			}
		}
		if depth == 0 {
			break
		}
	}
	vals := parseValues(txt.String())
	if len(vals) != len(ls) {
		return
	}
	m := &Model{vars: map[string]uint64{}, ufs: map[string]uint64{}, memo: map[*Term]uint64{}}
	for i, t := range ls {
		switch t.op {
		case OpVar:
			m.vars[t.name] = vals[i]
		case OpUF:
			as := make([]uint64, len(t.args))
			for k := range as {
				as[k] = m.eval(t.args[k])
			}
			m.ufs[ufKey(t.name, as...)] = vals[i]
		case OpMul:
			if len(t.args) != 2 {
				return
			}
			m.ufs[ufKey("mul"+strconv.Itoa(t.w), m.eval(t.args[0]), m.eval(t.args[1]))] = vals[i]
		}
	}
	if !m.satisfies(fs) {
		if os.Getenv("GOVC_DEBUG") != "" {
			os.Stderr.WriteString("model does not evaluate as expected\n")
		}
		return
	}
	s.models = append([]*Model{m}, s.models...)
	if len(s.models) > maxModels {
		s.models = s.models[:maxModels]
	}
}

// parseValues reads ((name value) ...) in order
func parseValues(s string) (r []uint64) {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return nil
			}
			i += j + 1
		case '#':
			j := i + 1
			for j < len(s) && s[j] != ')' && s[j] != ' ' {
				j++
			}
			base := 16
			if s[i+1] == 'b' {
				base = 2
			}
			v, err := strconv.ParseUint(s[i+2:j], base, 64)
			if err != nil {
				return nil
			}
			r = append(r, v)
			i = j
		case ' ':
			if strings.HasPrefix(s[i+1:], "true)") {
				r = append(r, 1)
			} else if strings.HasPrefix(s[i+1:], "false)") {
				r = append(r, 0)
			}
		}
	}
	return r
}
