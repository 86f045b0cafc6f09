package main

// Calls: contracts, builtins, externals, intrinsics, inlining.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vcPkg = "github.com/cloudwego/prutal/internal/vc"

func pkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if p := f.Parent(); p != nil {
		return pkgPath(p)
	}
	return ""
}

func (x *Exec) call(st *State, f *Frame, i *ssa.Call) []*State {
	c := &i.Call
	args := make([]Value, len(c.Args))
	for k, a := range c.Args {
		args[k] = st.get(a)
	}
	if c.IsInvoke() {
		return x.invoke(st, f, i, st.get(c.Value), args)
	}
	switch fn := c.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(st, f, i, fn.Name(), args)
	}
	fv, ok := st.get(c.Value).(FuncV)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", st.get(c.Value))))
	}
	if fv.fn != nil {
		return x.callFn(st, f, i, fv.fn, args, fv.bind)
	}
	return x.callDyn(st, f, i, fv, args)
}

func (x *Exec) callFn(st *State, f *Frame, i *ssa.Call, fn *ssa.Function, args []Value, bind []Value) []*State {
	if pkgPath(fn) == vcPkg {
		return x.intrinsic(st, f, i, strings.SplitN(fn.Name(), "[", 2)[0], args)
	}
	if strings.HasPrefix(fn.Name(), "GhostMem_") || strings.HasPrefix(fn.Name(), "GhostOut_") {
		x.effect(st, i, fn, args)
		return nil
	}
	if strings.HasPrefix(fn.Name(), "Fact_") && i != nil {
		// a predicate as one formula, not a branch
		f.env[i] = x.evalPure(st, fn, args)
		return nil
	}
	if strings.HasPrefix(fn.Name(), "Ghost_") {
		res := x.opaqueCall(st, fn.Name(), fn.Signature, paramsOf(fn), args)
		setRes(st, i, res)
		return nil
	}
	if forks, ok := x.external(st, f, i, fn, args); ok {
		return forks
	}
	if ct := x.w.contract(fn); ct != nil && !ct.skip(x, st, fn) {
		x.used[fn.String()] = true
		if ct.requires != nil {
			g := x.evalPure(st, ct.requires, args)
			x.oblige(st, "precondition of "+fn.Name(), x.pos(i.Pos()), g)
		}
		if ct.spec != nil && !ct.opaque {
			st.push(ct.spec, args, nil, i)
			return nil
		}
		res := x.opaqueCall(st, "fn:"+fn.String(), fn.Signature, paramsOf(fn), args)
		if ct.ensures != nil {
			st.assume(x.evalPure(st, ct.ensures, append(append([]Value{}, args...), res...)))
		}
		setRes(st, i, res)
		return nil
	}
	if len(fn.Blocks) == 0 || !x.w.inlinable(fn) {
		panic(unsupported("call of " + fn.String()))
	}
	for _, fr := range st.frames {
		if fr.fn == fn {
			panic(unsupported("recursive call without a contract: " + fn.String()))
		}
	}
	x.inlineIn[fn.String()] = true
	if !noMerge && !x.w.initMode && bind == nil && len(fn.Blocks) > 1 && mergeableFn(fn) {
		st.top().env[i] = x.evalPure(st, fn, args)
		return nil
	}
	st.push(fn, args, bind, i)
	return nil
}

func paramsOf(fn *ssa.Function) []types.Type {
	var r []types.Type
	for _, p := range fn.Params {
		r = append(r, p.Type())
	}
	return r
}

func setRes(st *State, i ssa.Value, res []Value) {
	switch len(res) {
	case 0:
	case 1:
		st.top().env[i] = res[0]
	default:
		st.top().env[i] = TupleV(res)
	}
}

// argTerms identifies arguments; memory tells whether raw memory is reachable
func (x *Exec) argTerms(st *State, ts []types.Type, args []Value) (r []*Term, key string) {
	needRaw, needHeap := false, false
	for k, a := range args {
		switch v := a.(type) {
		case *Term:
			if v.w == 0 {
				v = boolTo8(v)
			}
			r = append(r, v)
		case StrV:
			r = append(r, v.id, v.n)
		case SliceV:
			c := st.sliceContent(v)
			if c.n.isC(0) {
				r = append(r, i64(0), i64(0))
			} else {
				r = append(r, c.ident(), c.n)
			}
		case PtrV:
			if v.kind == pkRaw {
				needRaw = true
			} else if v.kind == pkHeap {
				needHeap = true
			} else {
				panic(unsupported("pointer to a local passed to an opaque function"))
			}
			r = append(r, addrTerm(v))
		case MapV:
			r = append(r, mapTerm(v))
			needRaw = true
		default:
			r = append(r, flatten(a, ts[k])...)
		}
	}
	if needRaw {
		m := st.raw
		if !hasScratch(r) {
			m = m.vis()
		}
		key += fmt.Sprintf("{%s,%s}", m.key(), st.mapKeyStr())
	}
	if needHeap && st.heapVer != "h0" {
		key += "{" + st.heapVer + "}"
	}
	for _, r := range sortedKeys(st.heap) {
		if needHeap && strings.HasPrefix(r, "prutalgen.") && len(st.heap[r].log) > 0 {
			key += timed(internKey(st.heapKey()), 1<<30)
			break
		}
	}
	return r, key
}

func (x *Exec) opaqueCall(st *State, name string, sig *types.Signature, pts []types.Type, args []Value) []Value {
	ts, key := x.argTerms(st, pts, args)
	var res []Value
	for k := 0; k < sig.Results().Len(); k++ {
		res = append(res, x.opaqueResult(st, fmt.Sprintf("%s%s.%d", name, key, k), ts, sig.Results().At(k).Type()))
	}
	return res
}

func (x *Exec) opaqueResult(st *State, name string, ts []*Term, t types.Type) Value {
	if s, ok := under(t).(*types.Slice); ok {
		n := mkUF(name+".len", 64, ts...)
		st.assume(tUlt(n, i64(int64(lenMax))))
		k := name
		for _, a := range ts {
			k += fmt.Sprintf(",%d", a.id)
		}
		src := &Src{name: name + ".el", args: ts, key: "of{" + k + "}"}
		return st.bufSlice(s.Elem(), mkSeq(compWidths(s.Elem()), Seg{kind: sgSub, src: src, off: i64(0), n: n}))
	}
	if isString(t) {
		s := StrV{id: mkUF(name+".str", 64, ts...), n: mkUF(name+".len", 64, ts...)}
		st.wellFormed(s)
		return s
	}
	cs := compsOf(t)
	rs := make([]*Term, len(cs))
	for j, c := range cs {
		rs[j] = mkUF(name+c.suffix, c.w, ts...)
	}
	v := unflatten(rs, t, false, nil, "", nil)
	st.wellFormed(v)
	return v
}

// poolPred is the contract of the objects of a pool which is a field
func (x *Exec) poolPred(v Value) *ssa.Function {
	p, ok := v.(PtrV)
	if !ok || p.kind != pkHeap {
		return nil
	}
	ps := strings.Split(strings.TrimPrefix(p.region, "!"), ".")
	if len(ps) != 3 {
		return nil
	}
	return x.w.dynNamed("Pool_"+ps[1]+"_"+ps[2], ps[0])
}

type effectRec struct {
	name   string
	ts     []*Term
	before *State
	ver    string
}

// effect is a call which may change the memory and maps of messages: results
// and new memory are functions of the old memory and the arguments
func (x *Exec) effect(st *State, i *ssa.Call, fn *ssa.Function, args []Value) {
	name := fn.Name()
	var keys []Value
	ts, _ := x.argTerms(st, paramsOf(fn), args)
	_ = keys
	k := name + "{" + st.raw.vis().key() + "," + st.mapKeyStr() + fmt.Sprintf(",%s:%d}", st.allocE, st.allocN)
	for _, t := range ts {
		k += fmt.Sprintf(",%d", t.id)
	}
	all := heapIsMutable(fn)
	k += st.ghostKey()
	if all {
		k += st.heapKey()
	}
	ver, ok := x.effects[k]
	if !ok {
		// the same call under another name?
		for _, e := range x.effRecs {
			if e.name != name || len(e.ts) != len(ts) || e.before.raw.ver != st.raw.ver || e.before.allocE != st.allocE || e.before.allocN != st.allocN {
				continue
			}
			if e.before.spec == st.spec {
				continue
			}
			eq := tTrue
			for j := range ts {
				if ts[j].w != e.ts[j].w {
					eq = tFls
					break
				}
				eq = tAnd(eq, tEq(ts[j], e.ts[j]))
			}
			if eq == tFls || !st.prove(eq) {
				continue
			}
			b := e.before.clone()
			b.pc = st.pc
			if !x.rawEqual(b, st) || !x.mapsEqual(b, st) {
				continue
			}
			if all && !x.heapsEqual(b, st) || x.globalsEqual(b, st) != "" {
				continue
			}
			ver, ok = e.ver, true
			ts = e.ts
			break
		}
	}
	if !ok {
		ver = newVersion("raw")
		x.effects[k] = ver
		if debugMemKeys {
			fmt.Fprintf(os.Stderr, "effect spec=%v %s => %s\n", st.spec, k, ver)
		}
		b := st.clone()
		b.frames = nil
		x.effRecs = append(x.effRecs, effectRec{name, ts, b, ver})
	}
	x.used[name] = true
	var res []Value
	sig := fn.Signature
	for j := 0; j < sig.Results().Len(); j++ {
		res = append(res, x.opaqueResult(st, fmt.Sprintf("%s{%s}.%d", name, ver, j), ts, sig.Results().At(j).Type()))
	}
	for g, o := range st.globals {
		if isContractGlobal(g) {
			st.objs[o] = st.symValue(o.name+"/"+ver, o.typ)
		}
	}
	if strings.HasPrefix(name, "GhostOut_") {
		setRes(st, i, res)
		return
	}
	st.raw = &RawMem{ver: ver}
	if all {
		st.heapVer, st.heap = ver, map[string]*HeapMem{}
	}
	st.mver, st.mlog, st.mfresh = ver, nil, nil
	st.allocE = strings.TrimSuffix(strings.TrimPrefix(ver, "raw@"), "@")
	st.allocN = 0
	setRes(st, i, res)
}

// heapIsMutable: whether effects declared beside fn change the fields of structs. The
// descriptors of the runtime packages do not change once built; the model of the
// generator does.
func heapIsMutable(fn *ssa.Function) bool { return fn.Pkg != nil && fn.Pkg.Pkg.Name() == "prutalgen" }

// isContractGlobal: ghost state
func isContractGlobal(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(filepath.Base(g.Pkg.Prog.Fset.Position(g.Pos()).Filename), "zz_contract_")
}

// heapKey identifies the fields written
func (st *State) heapKey() string {
	k := "{" + st.heapVer
	for _, r := range sortedKeys(st.heap) {
		h := st.heap[r]
		if len(h.log) == 0 && h.ver == st.heapVer {
			continue
		}
		k += ";" + r + "=" + h.ver
		for _, s := range h.log {
			for _, t := range s.keys {
				k += fmt.Sprintf(",%d", t.id)
			}
			k += fmt.Sprintf(":%d", s.val.id)
		}
	}
	return k + "}"
}

// ghostKey identifies the ghost state
func (st *State) ghostKey() string {
	m := map[string]string{}
	for g, o := range st.globals {
		if isContractGlobal(g) {
			m[g.String()] = valueKey(st.objs[o], o.typ)
		}
	}
	k := ""
	for _, n := range sortedKeys(m) {
		k += "{" + n + "=" + m[n] + "}"
	}
	return k
}

func (st *State) mapKeyStr() string {
	if len(st.mlog) == 0 {
		return st.mver
	}
	k := st.mver
	tm := nameTime(k)
	for _, s := range st.mlog {
		k += fmt.Sprintf(";%d", s.ref.id)
		tm = max(tm, termTime(s.ref))
		if s.clr {
			k += "clear"
			continue
		}
		for _, t := range s.k {
			k += fmt.Sprintf(",%d", t.id)
			tm = max(tm, termTime(t))
		}
		k += "=" + valueKey(s.v, s.vt)
		for _, t := range flatten(s.v, s.vt) {
			tm = max(tm, termTime(t))
		}
	}
	return timed(internKey(k), tm)
}

// evalPure runs a side-effect free function in st and merges its result
func (x *Exec) evalPure(st *State, fn *ssa.Function, args []Value) *Term {
	sub := st.clone()
	sub.frames = nil
	sub.watch = nil
	sub.spec = true
	sub.ev = evNone
	sub.push(fn, args, nil, nil)
	x.quiet++
	sm := x.sample
	x.sample = 0
	defer func() { x.sample = sm }()
	ns := x.noSat
	x.noSat = 0
	if !noMerge && mergeableFn(fn) {
		x.noSat = 1
	}
	outs := x.run(sub)
	x.noSat = ns
	x.quiet--
	var ps []purePath
	for _, o := range outs {
		if o.ev != evRet {
			panic(unsupported(fmt.Sprintf("pure function %s ends with event %d (%s)", fn, o.ev, o.evInfo)))
		}
		var cs []*Term
		for n := o.pc; n != nil && n != st.pc; n = n.next {
			cs = append(cs, n.t)
		}
		for a, b := 0, len(cs)-1; a < b; a, b = a+1, b-1 {
			cs[a], cs[b] = cs[b], cs[a]
		}
		ps = append(ps, purePath{cs, o.results[0].(*Term)})
	}
	cover, res := mergePaths(ps)
	st.assume(cover)
	return res
}

type purePath struct {
	cs  []*Term
	res *Term
}

// mergePaths joins the paths of a pure function along their branches: which
// inputs they cover (what was assumed on the way) and the result
func mergePaths(ps []purePath) (cover, res *Term) {
	if len(ps) == 0 {
		return tFls, tFls
	}
	if len(ps) == 1 {
		c := tAnd(ps[0].cs...)
		return c, tAnd(c, ps[0].res)
	}
	for _, p := range ps {
		if len(p.cs) == 0 {
			// not a tree of branches: fall back to the flat form
			cover, res = tFls, tFls
			for _, p := range ps {
				d := tAnd(p.cs...)
				cover, res = tOr(cover, d), tOr(res, tAnd(d, p.res))
			}
			return
		}
	}
	c := ps[0].cs[0]
	nc := tNot(c)
	var yes, no []purePath
	rest := false
	for _, p := range ps {
		q := purePath{p.cs[1:], p.res}
		switch p.cs[0] {
		case c:
			yes = append(yes, q)
		case nc:
			no = append(no, q)
		default:
			rest = true
		}
	}
	if rest {
		var a, b []purePath
		for _, p := range ps {
			if p.cs[0] == c {
				a = append(a, purePath{p.cs[1:], p.res})
			} else {
				b = append(b, p)
			}
		}
		c1, r1 := mergePaths(a)
		c2, r2 := mergePaths(b)
		return tOr(tAnd(c, c1), c2), tOr(tAnd(c, r1), r2)
	}
	c1, r1 := mergePaths(yes)
	if len(no) == 0 {
		return tAnd(c, c1), tAnd(c, r1)
	}
	c2, r2 := mergePaths(no)
	return boolIte(c, c1, c2), boolIte(c, r1, r2)
}

func boolIte(c, a, b *Term) *Term {
	switch {
	case a == b:
		return a
	case a == tTrue:
		return tOr(c, b)
	case b == tTrue:
		return tOr(tNot(c), a)
	case a == tFls:
		return tAnd(tNot(c), b)
	case b == tFls:
		return tAnd(c, a)
	}
	return tAnd(tOr(tNot(c), a), tOr(c, b))
}

func (x *Exec) callDyn(st *State, f *Frame, i *ssa.Call, fv FuncV, args []Value) []*State {
	if fv.org != "" {
		parts := strings.Split(fv.org, ".")
		if len(parts) >= 3 {
			if d := x.w.dyn(parts[len(parts)-2], parts[len(parts)-1], parts[0]); d != nil {
				x.oblige(st, "call of a nil function", x.pos(i.Pos()), tNot(fv.nilF))
				x.trust("function fields: " + d.Name() + " (established by descriptor construction, checked by the bounded harness)")
				x.used[d.Name()] = true
				all := append(append([]Value{}, fv.prm...), args...)
				if rq := x.w.specFn(pkgPath(d), "Requires_"+d.Name(), nil); rq != nil {
					x.oblige(st, "precondition of "+d.Name(), x.pos(i.Pos()), x.evalPure(st, rq, all))
				}
				st.push(d, all, nil, i)
				return nil
			}
		}
	}
	// a parameter of function type: uninterpreted but deterministic
	if strings.HasPrefix(fv.org, "param:") || fv.sym != nil && fv.sym.op == OpVar && strings.HasPrefix(fv.sym.name, "arg") {
		sig := under(fv.typ).(*types.Signature)
		var pts []types.Type
		for k := 0; k < sig.Params().Len(); k++ {
			pts = append(pts, sig.Params().At(k).Type())
		}
		x.trust("function-valued parameters are pure")
		ts, key := x.argTerms(st, pts, args)
		ts = append([]*Term{fv.sym}, ts...)
		var res []Value
		for k := 0; k < sig.Results().Len(); k++ {
			res = append(res, x.opaqueResult(st, fmt.Sprintf("apply:%s%s.%d", types.TypeString(sig, nil), key, k), ts, sig.Results().At(k).Type()))
		}
		setRes(st, i, res)
		return nil
	}
	panic(unsupported("dynamic call through " + fv.org))
}

func (x *Exec) invoke(st *State, f *Frame, i *ssa.Call, recv Value, args []Value) []*State {
	iv, ok := recv.(IfaceV)
	if !ok {
		panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
	}
	m := i.Call.Method
	if iv.val != nil && iv.typ != nil && !types.IsInterface(iv.typ) {
		if fn := x.w.prog.LookupMethod(iv.typ, m.Pkg(), m.Name()); fn != nil {
			return x.callFn(st, f, i, fn, append([]Value{iv.val}, args...), nil)
		}
	}
	it := i.Call.Value.Type()
	n, isn := it.(*types.Named)
	if isn && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "antlr") || isn && pureInvoke[n.Obj().Name()+"."+m.Name()] || m.Name() == "Error" {
		sig := m.Type().(*types.Signature)
		ts := []*Term{iv.tag, iv.data}
		if iv.data == nil {
			ts = []*Term{iv.tag}
		}
		var pts []types.Type
		for k := 0; k < sig.Params().Len(); k++ {
			pts = append(pts, sig.Params().At(k).Type())
		}
		at, key := x.argTerms(st, pts, args)
		ts = append(ts, at...)
		x.trust("interface method " + m.FullName() + " is a pure function of its receiver and arguments")
		var res []Value
		for k := 0; k < sig.Results().Len(); k++ {
			res = append(res, x.opaqueResult(st, fmt.Sprintf("invoke:%s%s.%d", m.FullName(), key, k), ts, sig.Results().At(k).Type()))
		}
		setRes(st, i, res)
		return nil
	}
	panic(unsupported("interface call " + m.FullName()))
}

var pureInvoke = map[string]bool{
	"Type.Kind": true, "Type.Elem": true, "Type.Key": true, "Type.Size": true, "Type.Align": true, "Type.String": true,
	"Type.Name": true, "Type.NumField": true, "Type.Len": true, "Type.Implements": true, "Type.NumMethod": true,
}

// ---------- intrinsics ----------

func (x *Exec) intrinsic(st *State, f *Frame, i *ssa.Call, name string, args []Value) []*State {
	switch name {
	case "Varint":
		v := args[0].(*Term)
		s := st.bufSlice(types.Typ[types.Byte], mkSeq([]int{8}, Seg{kind: sgVarint, v: v, n: varlen(v)}))
		f.env[i] = s
	case "VarintLen":
		f.env[i] = varlen(args[0].(*Term))
	case "Assert":
		x.oblige(st, "assertion", x.pos(i.Pos()), args[0].(*Term))
	case "Assume":
		x.trust("vc.Assume at " + x.pos(i.Pos()))
		st.assume(args[0].(*Term))
		if !st.feasible() {
			st.ev = evDead
		}
	case "SameBytes":
		a, b := args[0].(SliceV), args[1].(SliceV)
		f.env[i] = mkBool(x.seqEqual(st, st.sliceContent(a), st.sliceContent(b)))
	case "OrNil":
		fv, ok := args[0].(FuncV)
		if !ok || fv.fn == nil {
			panic(unsupported("vc.OrNil of an unknown function"))
		}
		var ts []*Term
		for _, p := range f.fn.Params {
			ts = append(ts, flatten(f.env[p], p.Type())...)
		}
		fv.orNil = true
		fv.nilF = tNe(mkUF("ornil:"+f.fn.String(), 8, ts...), bv(8, 0))
		f.env[i] = fv
	case "Regrow":
		f.env[i] = st.regrow(args[0].(SliceV))
	case "Fresh":
		a := st.alloc("fresh")
		f.env[i] = PtrV{kind: pkRaw, addr: a}
	case "FreshOf":
		// new memory, identified also by what it was asked for
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.(*Term))
		}
		f.env[i] = PtrV{kind: pkRaw, addr: st.alloc("fresh", ts...)}
	case "Err":
		f.env[i] = someErr("vc.Err")
	default:
		panic(unsupported("vc." + name))
	}
	return nil
}

func someErr(what string) IfaceV {
	return IfaceV{tag: i64(999983), data: mkVar("err:"+what, 64)}
}

// ---------- builtins ----------

func (x *Exec) builtin(st *State, f *Frame, i *ssa.Call, name string, args []Value) []*State {
	pos := x.pos(i.Pos())
	switch name {
	case "len":
		f.env[i] = x.lenOf(st, args[0])
	case "cap":
		switch s := args[0].(type) {
		case SliceV:
			f.env[i] = s.cap
		default:
			panic(unsupported("cap"))
		}
	case "append":
		s := args[0].(SliceV)
		var add *Seq
		switch t := args[1].(type) {
		case SliceV:
			add = st.sliceContent(t)
		case StrV:
			add = t.content()
		}
		f.env[i] = st.appendSeq(s, add)
	case "copy":
		d := args[0].(SliceV)
		var c *Seq
		var sn *Term
		switch t := args[1].(type) {
		case SliceV:
			c, sn = st.sliceContent(t), t.n
		case StrV:
			c, sn = t.content(), t.n
		}
		var n *Term
		switch {
		case leq(st, sn, d.n):
			n = sn
		case leq(st, d.n, sn):
			n = d.n
		default:
			n = tIte(tUlt(sn, d.n), sn, d.n)
		}
		c = sliceSeq(st, c, i64(0), n)
		if !n.isC(0) {
			switch d.kind {
			case pkBuf:
				b := st.bufs[d.buf]
				st.setBuf(d.buf, spliceSeq(st, b.content, d.off, c), d.off, n)
			case pkRaw:
				es := sizes.Sizeof(d.elem)
				st.raw = st.raw.with(rawStore{addr: d.addr, seq: c, n: tMul(n, i64(es)), es: es})
			default:
				panic(unsupported("copy into a heap slice"))
			}
		}
		f.env[i] = n
	case "delete":
		m := args[0].(MapV)
		if m.obj != nil {
			panic(unsupported("delete from a table"))
		}
		panic(unsupported("delete"))
	case "min", "max":
		r := args[0].(*Term)
		_, sg, _ := basicWidth(i.Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if sg {
				lt = tSlt(t, r)
			} else {
				lt = tUlt(t, r)
			}
			if name == "max" {
				lt = tNot(lt)
			}
			r = tIte(lt, t, r)
		}
		f.env[i] = r
	case "panic":
		st.ev, st.evInfo, st.evPos = evPanic, "panic", pos
	case "print", "println":
	case "ssa:wrapnilchk":
		f.env[i] = args[0]
	case "Add": // unsafe.Add
		p := x.asPtr(args[0])
		off := x.toInt(args[1].(*Term), i.Call.Args[1].Type())
		switch p.kind {
		case pkRaw:
			f.env[i] = PtrV{kind: pkRaw, addr: tAdd(p.addr, off)}
		default:
			f.env[i] = PtrV{kind: pkRaw, addr: tAdd(addrTerm(p), off)}
		}
	case "Slice": // unsafe.Slice
		p := x.asPtr(args[0])
		n := x.toInt(args[1].(*Term), i.Call.Args[1].Type())
		et := under(i.Type()).(*types.Slice).Elem()
		x.oblige(st, "unsafe.Slice", pos, tSle(i64(0), n))
		st.assume(tUlt(n, i64(int64(lenMax))))
		if p.sub != nil {
			panic(unsupported("unsafe.Slice"))
		}
		switch p.kind {
		case pkBuf:
			f.env[i] = SliceV{elem: et, kind: pkBuf, buf: p.buf, off: p.off, n: n, cap: n, isnil: tFls}
		case pkRaw:
			f.env[i] = SliceV{elem: et, kind: pkRaw, addr: p.addr, off: i64(0), n: n, cap: n, isnil: tEq(p.addr, i64(0))}
		default:
			panic(unsupported("unsafe.Slice"))
		}
	case "String": // unsafe.String
		p := x.asPtr(args[0])
		n := x.toInt(args[1].(*Term), i.Call.Args[1].Type())
		x.oblige(st, "unsafe.String", pos, tSle(i64(0), n))
		if p.sub != nil {
			panic(unsupported("unsafe.String"))
		}
		switch p.kind {
		case pkBuf:
			f.env[i] = seqString(sliceSeq(st, st.bufs[p.buf].content, p.off, n))
		case pkRaw:
			f.env[i] = unflatten([]*Term{p.addr, n}, types.Typ[types.String], true, st.raw, "", nil)
		default:
			panic(unsupported("unsafe.String"))
		}
	case "StringData":
		s := args[0].(StrV)
		f.env[i] = PtrV{kind: pkRaw, addr: flatten(s, types.Typ[types.String])[0]}
	case "SliceData":
		s := args[0].(SliceV)
		switch s.kind {
		case pkBuf:
			f.env[i] = PtrV{kind: pkBuf, buf: s.buf, off: s.off}
		case pkRaw:
			f.env[i] = PtrV{kind: pkRaw, addr: s.addr}
		default:
			panic(unsupported("unsafe.SliceData"))
		}
	default:
		panic(unsupported("builtin " + name))
	}
	return nil
}

func (x *Exec) lenOf(st *State, v Value) *Term {
	switch s := v.(type) {
	case SliceV:
		return s.n
	case StrV:
		return s.n
	case ArrV:
		return i64(int64(len(s.e)))
	case MapV:
		if s.obj != nil {
			return i64(int64(len(st.maps[s.obj.id].ents)))
		}
		if len(st.mlog) > 0 {
			panic(unsupported("len of an updated map"))
		}
		return st.mapLen(s)
	}
	panic(unsupported(fmt.Sprintf("len of %T", v)))
}

// ---------- externals ----------

func (x *Exec) external(st *State, f *Frame, i *ssa.Call, fn *ssa.Function, args []Value) ([]*State, bool) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	pk := pkgPath(fn)
	switch {
	case name == "math/bits.Len64":
		v := args[0].(*Term)
		r := i64(0)
		for k := 0; k < 64; k++ {
			r = tIte(tUle(bv(64, 1<<uint(k)), v), i64(int64(k+1)), r)
		}
		f.env[i] = r
		return nil, true
	case pk == "math/bits" && strings.HasPrefix(fn.Name(), "Len"):
		v := args[0].(*Term)
		r := i64(0)
		for k := 0; k < v.w; k++ {
			r = tIte(tUle(bv(v.w, 1<<uint(k)), v), i64(int64(k+1)), r)
		}
		f.env[i] = r
		return nil, true
	case name == "errors.New" || name == "fmt.Errorf":
		// identity by call site and text
		n := "errors"
		if s, ok := args[0].(StrV); ok && s.lit != nil {
			n = *s.lit
		}
		f.env[i] = someErr(strings.NewReplacer("|", "_", "\\", "_").Replace(n))
		return nil, true
	case name == "errors.Join":
		x.trust("errors.Join is called with non-nil errors only: its result is nil iff there are none")
		n := args[0].(SliceV).n
		f.env[i] = IfaceV{tag: tIte(n.eqz(), i64(0), typeTag(i.Type())), data: tIte(n.eqz(), i64(0), i64(1))}
		return nil, true
	case name == "fmt.Sprintf" || name == "fmt.Sprint":
		if name == "fmt.Sprintf" {
			if s := x.formatted(st, args); s != nil {
				x.trust("fmt.Sprintf puts strings for %s, quotes them for %q and puts the decimal digits of integers for %d")
				f.env[i] = *s
				return nil, true
			}
		}
		x.trust(name + " is a pure function of its arguments")
		f.env[i] = x.sprintf(st, args)
		return nil, true
	case (name == "(*sync.Pool).Get" || name == "(*sync.Pool).Put") && x.poolPred(args[0]) != nil:
		pred := x.poolPred(args[0])
		own := x.asPtr(args[0])
		own.region = baseRegion(own.region)
		pt := pred.Params[1].Type()
		if fn.Name() == "Put" {
			v, ok := args[1].(IfaceV)
			if !ok {
				break
			}
			x.oblige(st, "what is put into the pool has its type", x.pos(i.Pos()), tEq(v.tag, typeTag(pt)))
			o := v.val
			if o == nil {
				o = unflatten([]*Term{v.data}, pt, false, nil, "", nil)
			}
			x.oblige(st, "what is put into the pool belongs to it ("+pred.Name()+")", x.pos(i.Pos()), x.evalPure(st, pred, []Value{own, o}))
			setRes(st, i, nil)
			return nil, true
		}
		x.trust("an object from a sync.Pool satisfies what everything put there does, and what its New makes: " + pred.Name())
		d := freshVar("pooled", 64)
		o := unflatten([]*Term{d}, pt, false, nil, "", nil)
		st.assume(tNe(d, i64(0)))
		st.assume(x.evalPure(st, pred, []Value{own, o}))
		f.env[i] = IfaceV{tag: typeTag(pt), data: d, val: o, typ: pt}
		return nil, true
	case name == "(*sync.Pool).Get":
		x.trust("sync.Pool.Get returns an object used by nobody else")
		a := st.alloc("pool")
		tag := mkVar(freshName("pooltag"), 64)
		for _, r := range *i.Referrers() {
			if ta, ok := r.(*ssa.TypeAssert); ok {
				x.trust("a sync.Pool holds values of the type its New returns")
				tag = typeTag(ta.AssertedType)
			}
		}
		f.env[i] = IfaceV{tag: tag, data: a}
		return nil, true
	case name == "(*sync.Pool).Put", strings.HasPrefix(name, "(*sync.Mutex)"), strings.HasPrefix(name, "(*sync.RWMutex)"),
		name == "runtime.KeepAlive":
		setRes(st, i, nil)
		return nil, true
	case strings.HasPrefix(name, "(*sync/atomic.Pointer") || strings.HasPrefix(name, "(*sync/atomic.Value"):
		return x.atomicPtr(st, f, i, fn, args), true
	case name == "(*"+modPath+"/internal/desc.TmpMapVars).MapWithPtr":
		p := x.asPtr(args[1])
		if p.kind != pkRaw {
			break
		}
		x.trust("TmpMapVars.MapWithPtr views the map stored at its argument")
		f.env[i] = MapV{ref: st.raw.load(p.addr, 64, st), k: types.Typ[types.UnsafePointer], v: types.Typ[types.UnsafePointer]}
		return nil, true
	case name == modPath+"/internal/hack.ReflectTypePtr":
		v, ok := args[0].(IfaceV)
		if !ok {
			break
		}
		x.trust("hack.ReflectTypePtr is the identity of the type")
		d := v.data
		if d == nil {
			d = flatten(v, fn.Params[0].Type())[1]
		}
		f.env[i] = mkUF("typeptr", 64, d)
		return nil, true
	case name == "reflect.MakeMap":
		v, ok := args[0].(IfaceV)
		if !ok {
			break
		}
		x.trust("reflect.MakeMap makes a new empty map of the type")
		d := v.data
		if d == nil {
			d = flatten(v, fn.Params[0].Type())[1]
		}
		f.env[i] = MapV{ref: st.alloc("makemap", d), k: types.Typ[types.UnsafePointer], v: types.Typ[types.UnsafePointer]}
		return nil, true
	case name == "(reflect.Value).UnsafePointer":
		m, ok := args[0].(MapV)
		if !ok {
			break
		}
		f.env[i] = PtrV{kind: pkRaw, addr: m.ref}
		return nil, true
	case name == modPath+"/internal/hack.NewMapIter":
		m, ok := args[0].(MapV)
		if !ok {
			break
		}
		o := st.newObj("mapiter", types.Typ[types.Int], i64(0))
		x.trust("hack.MapIter visits every entry of the map once (reflect.MapIter)")
		f.env[i] = IterV{obj: o, m: m}
		return nil, true
	case name == "(*"+modPath+"/internal/hack.MapIter).Next":
		it, ok := st.load(x.asPtr(args[0]), nil).(IterV)
		if !ok {
			break
		}
		pos := st.objs[it.obj].(*Term)
		n := st.mapLen(it.m)
		nilp := PtrV{kind: pkRaw, addr: i64(0)}
		return x.branch(st, tUlt(pos, n), func(s *State) {
			k := mkUF("mapkptr/"+s.mver, 64, it.m.ref, pos)
			v := mkUF("mapvptr/"+s.mver, 64, it.m.ref, pos)
			s.assume(tNe(k, i64(0)))
			s.assume(tNe(v, i64(0)))
			s.objs[it.obj] = tAdd(pos, i64(1))
			s.top().env[i] = TupleV{PtrV{kind: pkRaw, addr: k}, PtrV{kind: pkRaw, addr: v}}
		}, func(s *State) {
			s.top().env[i] = TupleV{nilp, nilp}
		}), true
	case pk == "strings" || pk == "strconv" || pk == "path" || pk == "path/filepath" || pk == "unicode" || pk == "unicode/utf8" || pk == "math":
		if len(fn.Blocks) > 0 && simplePure[name] {
			return nil, false
		}
		return x.pureExt(st, f, i, fn, args)
	}
	return nil, false
}

var simplePure = map[string]bool{}

const modPath = "github.com/cloudwego/prutal"

func (x *Exec) atomicPtr(st *State, f *Frame, i *ssa.Call, fn *ssa.Function, args []Value) []*State {
	p := x.asPtr(args[0])
	switch fn.Name() {
	case "Load":
		f.env[i] = st.load(PtrV{kind: pkHeap, addr: addrTerm(p), region: "atomic"}, i.Type())
	case "Store":
		st.store(PtrV{kind: pkHeap, addr: addrTerm(p), region: "atomic"}, i.Call.Args[1].Type(), args[1])
	default:
		panic(unsupported("atomic " + fn.Name()))
	}
	return nil
}

// itoa: the decimal digits of v
func itoa(st *State, v *Term) StrV {
	s := StrV{id: mkUF("itoa", 64, v), n: mkUF("itoa.len", 64, v)}
	st.assume(tAnd(tUle(i64(1), s.n), tUle(s.n, i64(20))))
	return s
}

// formatted does the formats made of text, %s of strings and %d of integers; nil otherwise
func (x *Exec) formatted(st *State, args []Value) *StrV {
	fm, ok := args[0].(StrV)
	sl, ok2 := args[len(args)-1].(SliceV)
	if !ok || !ok2 || fm.lit == nil || len(args) != 2 || !sl.n.isConst() {
		return nil
	}
	var vs []Value
	if sl.n.c > 0 {
		c := st.sliceContent(sl)
		for k := uint64(0); k < sl.n.c; k++ {
			var v Value
			ts := c.at(i64(int64(k)))
			if !ts[0].isConst() || ts[0].c == 0 || int(ts[0].c) >= len(tagTypes) {
				return nil
			}
			t := tagTypes[ts[0].c]
			if w, signed, isB := basicWidth(t); isB && w > 0 && !isFloat(t) {
				d := ts[1]
				if w < 64 && signed {
					d = tSext(tExtract(d, 0, w), 64)
				} else if w == 64 && !signed {
					return nil
				}
				v = d
			} else {
				v = boxed[ts[1].id]
			}
			if v == nil {
				return nil
			}
			vs = append(vs, v)
		}
	}
	r, text := strLit(""), ""
	k := 0
	for j := 0; j < len(*fm.lit); j++ {
		c := (*fm.lit)[j]
		if c != '%' {
			text += string(c)
			continue
		}
		j++
		if j == len(*fm.lit) {
			return nil
		}
		switch c = (*fm.lit)[j]; {
		case c == '%':
			text += "%"
		case k == len(vs):
			return nil
		case c == 's':
			s, ok := vs[k].(StrV)
			if !ok {
				return nil
			}
			r, text = concat(concat(r, strLit(text)), s), ""
			k++
		case c == 'q':
			s, ok := vs[k].(StrV)
			if !ok {
				return nil
			}
			q := StrV{id: mkUF("quote", 64, s.id), n: mkUF("quote.len", 64, s.id)}
			st.wellFormed(q)
			r, text = concat(concat(r, strLit(text)), q), ""
			k++
		case c == 'd':
			t, ok := vs[k].(*Term)
			if !ok || t.w != 64 {
				return nil
			}
			r, text = concat(concat(r, strLit(text)), itoa(st, t)), ""
			k++
		default:
			return nil
		}
	}
	if k != len(vs) {
		return nil
	}
	r = concat(r, strLit(text))
	return &r
}

// boxedBytes: a []byte is printed by its contents, wherever they are
func (st *State) boxedBytes(t *Term) *Term {
	sl, ok := boxed[t.id].(SliceV)
	if !ok || sizes.Sizeof(sl.elem) != 1 {
		return t
	}
	c := st.sliceContent(sl)
	if len(c.segs) != 1 || c.segs[0].kind != sgSub || c.segs[0].src.mem != nil {
		return t
	}
	g := c.segs[0]
	return mkUF("bytes:"+g.src.name, 64, append(append([]*Term(nil), g.src.args...), g.off, g.n)...)
}

func (x *Exec) sprintf(st *State, args []Value) Value {
	ts := []*Term{}
	key := ""
	if s, ok := args[0].(StrV); ok {
		ts = append(ts, s.id)
	}
	sl, ok := args[len(args)-1].(SliceV)
	if !ok || !sl.n.isConst() {
		return StrV{id: freshVar("sprintf", 64), n: freshVar("sprintflen", 64)}
	}
	c := st.sliceContent(sl)
	for k := uint64(0); k < sl.n.c; k++ {
		for _, t := range c.at(i64(int64(k))) {
			if t.op == OpVar {
				if iv, ok := ifaceByName[t.name]; ok && iv.val != nil {
					if s, ok := iv.val.(StrV); ok {
						ts = append(ts, s.id)
						continue
					}
				}
			}
			ts = append(ts, st.boxedBytes(t))
		}
	}
	key = fmt.Sprintf("sprintf%d", len(ts))
	s := StrV{id: mkUF(key, 64, ts...), n: mkUF(key+".len", 64, ts...)}
	st.wellFormed(s)
	return s
}

// pureExt: standard library functions over strings and scalars, uninterpreted
// except for a few facts
func (x *Exec) pureExt(st *State, f *Frame, i *ssa.Call, fn *ssa.Function, args []Value) ([]*State, bool) {
	name := fn.String()
	switch name {
	case "strconv.Itoa":
		f.env[i] = itoa(st, args[0].(*Term))
		x.trust("strconv gives the decimal digits of a number, 1 to 20 bytes")
		return nil, true
	case "strconv.AppendInt", "strconv.FormatInt":
		if b := args[len(args)-1].(*Term); b.isC(10) {
			x.trust("strconv gives the decimal digits of a number, 1 to 20 bytes")
			s := itoa(st, args[len(args)-2].(*Term))
			if len(args) == 2 {
				f.env[i] = s
			} else {
				f.env[i] = st.appendSeq(args[0].(SliceV), s.content())
			}
			return nil, true
		}
	case "strings.Join":
		sl, ok := args[0].(SliceV)
		if ok && sl.n.isConst() && sl.n.c <= 8 {
			r := strLit("")
			if sl.n.c > 0 {
				c := st.sliceContent(sl)
				for k := uint64(0); k < sl.n.c; k++ {
					if k > 0 {
						r = concat(r, args[1].(StrV))
					}
					v, ok := unflatten(c.at(i64(int64(k))), sl.elem, false, nil, "", nil).(StrV)
					if !ok {
						return nil, false
					}
					r = concat(r, v)
				}
			}
			f.env[i] = r
			x.trust("strings.Join puts the separator between the strings")
			return nil, true
		}
	case "strings.HasPrefix":
		s, p := args[0].(StrV), args[1].(StrV)
		if p.lit != nil && len(*p.lit) <= 32 {
			c := tUle(p.n, s.n)
			for k := 0; k < len(*p.lit); k++ {
				c = tAnd(c, tEq(s.content().at(i64(int64(k)))[0], bv(8, uint64((*p.lit)[k]))))
			}
			f.env[i] = c
			return nil, true
		}
		r := tNe(mkUF("hasprefix", 8, s.id, p.id), bv(8, 0))
		st.assume(tImp(r, tUle(p.n, s.n)))
		f.env[i] = r
		x.trust("strings.HasPrefix(s, p) implies len(p) <= len(s); otherwise uninterpreted")
		return nil, true
	case "strings.HasSuffix":
		s, p := args[0].(StrV), args[1].(StrV)
		r := tNe(mkUF("hassuffix", 8, s.id, p.id), bv(8, 0))
		st.assume(tImp(r, tUle(p.n, s.n)))
		f.env[i] = r
		x.trust("strings.HasSuffix(s, p) implies len(p) <= len(s); otherwise uninterpreted")
		return nil, true
	}
	ts, key := x.argTerms(st, paramsOf(fn), args)
	x.trust(name + " is a pure function of its arguments")
	var res []Value
	sig := fn.Signature
	for k := 0; k < sig.Results().Len(); k++ {
		if len(ts) == 0 {
			panic(unsupported("call of " + name))
		}
		res = append(res, x.opaqueResult(st, fmt.Sprintf("%s%s.%d", name, key, k), ts, sig.Results().At(k).Type()))
	}
	switch name {
	case "strings.IndexByte", "strings.Index", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexRune":
		r := res[0].(*Term)
		st.assume(tSle(i64(-1), r))
		st.assume(tSlt(r, tIte(args[0].(StrV).n.eqz(), i64(1), args[0].(StrV).n)))
	}
	setRes(st, i, res)
	return nil, true
}

func (t *Term) eqz() *Term { return tEq(t, bv(t.w, 0)) }

// ---------- contracts ----------

type Contract struct {
	name     string
	fn       *ssa.Function
	spec     *ssa.Function
	def      *ssa.Function
	requires *ssa.Function
	split    *ssa.Function // the condition two proofs are split by
	assumes  *ssa.Function // facts of every caller's state nobody proves
	ensures  *ssa.Function
	opaque   bool
	model    bool // spec is assumed, not proved (a lemma about the function argues for it)
}

// skip: the contract is not used (the body is inlined instead)
func (c *Contract) skip(x *Exec, st *State, fn *ssa.Function) bool {
	if c.model && c.fn != x.target && strings.HasPrefix(x.target.Name(), "Lemma_"+baseName(c.fn)) {
		return true
	}
	if c.model {
		x.trust("callers see " + baseName(c.fn) + " as " + c.spec.Name() + " says")
	}
	return x.w.noContract[x.name+"<-"+c.name]
}

var _ = token.NoPos
var _ = os.Stderr

// typeInv assumes the invariant of the type p points to
func (x *Exec) typeInv(st *State, p PtrV) {
	if strings.HasPrefix(p.region, "!") || len(p.idx) > 0 {
		return
	}
	inv := x.w.inv(p.region)
	if inv == nil || x.noInv(inv) {
		return
	}
	k := fmt.Sprintf("%s@%d@%s", p.region, p.addr.id, st.heapVer)
	if st.invDone[k] {
		return
	}
	n := map[string]bool{k: true}
	for a := range st.invDone {
		n[a] = true
	}
	st.invDone = n
	x.used[inv.Name()] = true
	x.trust("data invariant " + inv.Name() + " holds for every descriptor reached (established by descriptor construction)")
	st.assume(x.evalPure(st, inv, []Value{p}))
}

// noInv: NoInv_<Type>_<function> says that the invariant of Type does not hold
// yet when function runs (it establishes it)
func (x *Exec) noInv(inv *ssa.Function) bool {
	if x.target == nil {
		return false
	}
	n := "No" + inv.Name() + "_" + baseName(x.target)
	for _, k := range sortedKeys(x.w.pkgs) {
		if x.w.pkgs[k].Func(n) != nil {
			return true
		}
	}
	return false
}
