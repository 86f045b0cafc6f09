package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	candFns    []*ssa.Function
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package // by path
	base       *State
	globObj    map[*ssa.Global]*Obj
	initMode   bool
	mregions   map[*ssa.BasicBlock]*mregion
	loopC      map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	contracts  map[*ssa.Function]*Contract
	noContract map[string]bool
	insts      map[string]*ssa.Function
	dropped    []string
	methods    map[string]*ssa.Function
}

func loadWorld(repo, contracts string) *World {
	overlay := map[string][]byte{}
	var pats []string
	w := &World{pkgs: map[string]*ssa.Package{}, globObj: map[*ssa.Global]*Obj{}, loopC: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, contracts: map[*ssa.Function]*Contract{}, noContract: map[string]bool{}, insts: map[string]*ssa.Function{}, methods: map[string]*ssa.Function{}, mregions: map[*ssa.BasicBlock]*mregion{}}
	filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contracts, p)
		dir := filepath.Dir(rel)
		name := filepath.Base(p)
		if dir == "vc" {
			dir = "internal/vc"
		} else {
			name = "zz_contract_" + name
		}
		b, _ := os.ReadFile(p)
		overlay[filepath.Join(repo, dir, name)] = b
		return nil
	})
	dirs := map[string]bool{}
	for f := range overlay {
		dirs[filepath.Dir(f)] = true
	}
	for d := range dirs {
		rel, _ := filepath.Rel(repo, d)
		pats = append(pats, "./"+rel)
	}
	sort.Strings(pats)
	load := func() []*packages.Package {
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     repo,
			Overlay: overlay,
			Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
		}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			os.Exit(3)
		}
		return pkgs
	}
	var pkgs []*packages.Package
	for try := 0; ; try++ {
		pkgs = load()
		bad := map[string]string{}
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if !strings.HasPrefix(p.PkgPath, modPath) {
				return
			}
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.IndexByte(f, ':'); i > 0 {
					f = f[:i]
				}
				bad[f] = e.Msg
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "load error:", e)
				}
			}
		})
		if len(bad) == 0 || try > 4 {
			if len(bad) > 0 {
				fmt.Fprintln(os.Stderr, "load errors:", bad)
				os.Exit(3)
			}
			break
		}
		// a contract file that no longer fits the code is dropped: its
		// functions are then reported as not under contract
		n := 0
		for f, m := range bad {
			if _, ok := overlay[f]; ok && strings.HasPrefix(filepath.Base(f), "zz_contract_") {
				delete(overlay, f)
				w.dropped = append(w.dropped, filepath.Base(f)+": "+m)
				n++
			}
		}
		if n == 0 {
			fmt.Fprintln(os.Stderr, "load errors:", bad)
			os.Exit(3)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			p.Build()
			w.pkgs[p.Pkg.Path()] = p
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if o := fn.Origin(); o != nil && strings.HasPrefix(pkgPath(fn), modPath) {
			w.insts[instKey(o, fn.TypeArgs())] = fn
		}
	}
	return w
}

func instKey(o *ssa.Function, ta []types.Type) string {
	k := o.String()
	for _, t := range ta {
		k += "," + types.TypeString(t, nil)
	}
	return k
}

// inlinable: functions of the module may be inlined
func (w *World) inlinable(fn *ssa.Function) bool {
	p := pkgPath(fn)
	return strings.HasPrefix(p, modPath) || p == "" || simpleStd[p]
}

var simpleStd = map[string]bool{}

func baseName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	n := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nm, ok := t.(*types.Named); ok {
			return nm.Obj().Name() + "_" + n
		}
	}
	return n
}

func (w *World) specFn(pkg, name string, fn *ssa.Function) *ssa.Function {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	s := p.Func(name)
	if s == nil {
		return nil
	}
	if fn != nil && len(fn.TypeArgs()) > 0 && s.TypeParams().Len() > 0 {
		return w.insts[instKey(s, fn.TypeArgs())]
	}
	return s
}

func (w *World) contract(fn *ssa.Function) *Contract {
	if c, ok := w.contracts[fn]; ok {
		return c
	}
	var c *Contract
	pk := pkgPath(fn)
	if strings.HasPrefix(pk, modPath) && fn.Parent() == nil && !isContractName(fn.Name()) {
		b := baseName(fn)
		d := &Contract{name: fn.String(), fn: fn}
		if d.spec = w.specFn(pk, "Spec_"+b, fn); d.spec == nil {
			d.spec = w.specFn(pk, "Model_"+b, fn)
			d.model = d.spec != nil
		}
		d.def = w.specFn(pk, "Def_"+b, fn)
		d.requires = w.specFn(pk, "Requires_"+b, fn)
		d.split = w.specFn(pk, "Split_"+b, fn)
		d.assumes = w.specFn(pk, "Assumes_"+b, fn)
		d.ensures = w.specFn(pk, "Ensures_"+b, fn)
		d.opaque = d.ensures != nil || w.specFn(pk, "Opaque_"+b, nil) != nil
		for _, s := range []*ssa.Function{d.spec, d.def} {
			if s != nil && !types.Identical(resTuple(s), resTuple(fn)) {
				w.dropped = append(w.dropped, s.Name()+": signature differs from the code")
				d.spec, d.def = nil, nil
			}
			if s != nil && len(s.Params) != len(fn.Params) {
				w.dropped = append(w.dropped, s.Name()+": signature differs from the code")
				d.spec, d.def = nil, nil
			}
		}
		if d.spec != nil || d.def != nil || d.ensures != nil || d.requires != nil {
			c = d
			if c.spec == nil && c.ensures == nil {
				c = nil
			}
		}
	}
	w.contracts[fn] = c
	return c
}

func resTuple(f *ssa.Function) types.Type {
	var vs []*types.Var
	for i := 0; i < f.Signature.Results().Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", f.Signature.Results().At(i).Type()))
	}
	return types.NewTuple(vs...)
}

func isContractName(n string) bool {
	for _, p := range []string{"Spec_", "Model_", "Def_", "Requires_", "Assumes_", "Ensures_", "Opaque_", "Ghost_", "Dyn_", "Inv_", "Lemma_", "Scratch_", "NoInv_", "GhostMem_", "GhostOut_", "Pool_", "Cand_", "Fact_", "Split_"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// dyn finds Dyn_<Struct>_<Field> in any package under contract
func (w *World) dyn(st, field, pkg string) *ssa.Function {
	return w.dynNamed("Dyn_"+st+"_"+field, pkg)
}

func (w *World) dynNamed(name, pkg string) *ssa.Function {
	for _, k := range sortedKeys(w.pkgs) {
		if f := w.pkgs[k].Func(name); f != nil {
			return f
		}
	}
	return nil
}

// cands lists the Cand_ functions: facts tried as invariants of every loop
// whose variables and parameters have the types of their parameters
func (w *World) cands() []*ssa.Function {
	if w.candFns == nil {
		w.candFns = []*ssa.Function{}
		for _, k := range sortedKeys(w.pkgs) {
			for _, n := range sortedKeys(w.pkgs[k].Members) {
				if f, ok := w.pkgs[k].Members[n].(*ssa.Function); ok && strings.HasPrefix(n, "Cand_") {
					w.candFns = append(w.candFns, f)
				}
			}
		}
	}
	return w.candFns
}

// scratch: a Scratch_<Struct>_<field> contract declares the pointer private
func (w *World) scratch(region string) bool {
	region = strings.TrimPrefix(region, "!")
	i := strings.IndexByte(region, '.')
	if i < 0 {
		return false
	}
	n := "Scratch_" + strings.ReplaceAll(region[i+1:], ".", "_")
	for _, k := range sortedKeys(w.pkgs) {
		if w.pkgs[k].Func(n) != nil {
			return true
		}
	}
	return false
}

func (w *World) inv(region string) *ssa.Function {
	i := strings.IndexByte(region, '.')
	if i < 0 {
		return nil
	}
	for _, k := range sortedKeys(w.pkgs) {
		p := w.pkgs[k]
		if f := p.Func("Inv_" + region[i+1:]); f != nil && p.Pkg.Name() == region[:i] {
			return f
		}
	}
	return nil
}

// loops maps each loop head of fn to the blocks of its loop
func (w *World) loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := w.loopC[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				set := l[h]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{h: true}
					l[h] = set
				}
				var st []*ssa.BasicBlock
				if !set[b] {
					set[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					n := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range n.Preds {
						if !set[p] {
							set[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	w.loopC[fn] = l
	return l
}

// ---------- package initialisation ----------

// initGlobals runs the package initialisers concretely. Only variables which
// nothing but initialisers store to are kept.
func (w *World) initGlobals(sol *Solver) {
	x := &Exec{w: w, sol: sol, inlineIn: map[string]bool{}, assumed: map[string]bool{}, used: map[string]bool{}, maxSteps: 1 << 30}
	st := &State{x: x, bufs: map[int]BufC{}, objs: map[*Obj]Value{}, raw: &RawMem{ver: "m0"}, heap: map[string]*HeapMem{}, heapVer: "h0", maps: map[int]*MapC{}, mver: "mm0", globals: map[*ssa.Global]*Obj{}, allocE: "0"}
	w.base = st
	w.initMode = true
	order := []string{}
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] || !strings.HasPrefix(p.Path(), modPath) || strings.Contains(p.Path(), "antlr") || strings.Contains(p.Path(), "/parser") {
			return
		}
		seen[p.Path()] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		order = append(order, p.Path())
	}
	for _, k := range sortedKeys(w.pkgs) {
		visit(w.pkgs[k].Pkg)
	}
	for _, path := range order {
		p := w.pkgs[path]
		if p == nil {
			continue
		}
		w.initPkg(x, st, p)
	}
	w.initMode = false
	// keep only what is never stored to elsewhere and is fully known
	stored := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(w.prog) {
		if !strings.HasPrefix(pkgPath(fn), modPath) {
			continue
		}
		inInit := isInit(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if g, ok := rootGlobal(i.Addr); ok && !inInit {
						stored[g] = true
					}
				case *ssa.MapUpdate:
					if g, ok := rootGlobal(i.Map); ok && !inInit {
						stored[g] = true
					}
				}
				if !inInit {
					// address taken: anything may happen
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							switch u := in.(type) {
							case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
							case *ssa.Store:
								if u.Val == g {
									stored[g] = true
								}
							default:
								stored[g] = true
							}
						}
					}
				}
			}
		}
	}
	for g, o := range st.globals {
		if stored[g] || !fullyKnown(st.objs[o]) {
			delete(st.globals, g)
			delete(st.objs, o)
		} else {
			w.globObj[g] = o
		}
	}
	for o := range st.objs {
		known := false
		for _, q := range st.globals {
			if q == o {
				known = true
			}
		}
		_ = known
	}
	st.frames = nil
	st.pc = nil
}

func isInit(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			return true
		}
	}
	return false
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch y := v.(type) {
		case *ssa.Global:
			return y, true
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.IndexAddr:
			v = y.X
		case *ssa.UnOp:
			v = y.X
		case *ssa.ChangeType:
			v = y.X
		default:
			return nil, false
		}
	}
}

func fullyKnown(v Value) bool {
	switch s := v.(type) {
	case OpaqueV, nil:
		return false
	case StructV:
		for _, f := range s.f {
			if !fullyKnown(f) {
				return false
			}
		}
	case ArrV:
		for _, f := range s.e {
			if !fullyKnown(f) {
				return false
			}
		}
	case PtrV:
		return s.kind == pkRaw && s.addr.isC(0)
	}
	return true
}

// initPkg interprets the initialiser leniently: what is not understood leaves
// its variables unknown
func (w *World) initPkg(x *Exec, st *State, p *ssa.Package) {
	init := p.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	// globals start as zero values
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().(*types.Pointer).Elem()
			o := &Obj{id: 1000000 + len(w.globObj) + len(st.globals), name: "glob:" + g.String(), typ: t}
			func() {
				defer func() {
					if r := recover(); r != nil {
						st.objs[o] = OpaqueV{t, mkVar(o.name, 64)}
					}
				}()
				st.objs[o] = zeroValue(t)
			}()
			st.globals[g] = o
		}
	}
	w.runInit(x, st, init)
}

func (w *World) runInit(x *Exec, st *State, fn *ssa.Function) {
	st.frames = nil
	st.push(fn, nil, nil, nil)
	st.ev = evNone
	deadline := time.Now().Add(10 * time.Second)
	for st.ev == evNone && len(st.frames) > 0 {
		if time.Now().After(deadline) {
			return
		}
		depth := len(st.frames)
		bot := st.frames[0]
		var cur ssa.Instruction
		if bot.ip < len(bot.block.Instrs) {
			cur = bot.block.Instrs[bot.ip]
		}
		if depth > 1 && bot.ip > 0 {
			cur = bot.block.Instrs[bot.ip-1]
		}
		// calls of other packages' initialisers are skipped
		if c, ok := cur.(*ssa.Call); ok && depth == 1 {
			if cal := c.Call.StaticCallee(); cal != nil {
				if cal.Name() == "init" && cal.Pkg != fn.Pkg {
					bot.ip++
					continue
				}
				if isInit(cal) && cal.Parent() == nil && cal.Pkg == fn.Pkg {
					bot.ip++
					saved := st.frames
					w.runInit(x, st, cal)
					st.frames = saved
					st.ev = evNone
					continue
				}
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("GOVC_INIT") != "" {
						fmt.Fprintf(os.Stderr, "init %s: %v at %v\n", fn, r, cur)
					}
					st.frames = st.frames[:1]
					st.watch = nil
					if v, ok := cur.(ssa.Value); ok {
						bot.env[v] = OpaqueV{v.Type(), freshVar("opq", 64)}
					}
					if s, ok := cur.(*ssa.Store); ok {
						if g, ok := rootGlobal(s.Addr); ok {
							if o := st.globals[g]; o != nil {
								st.objs[o] = OpaqueV{o.typ, freshVar("opq", 64)}
							}
						}
					}
					switch cur.(type) {
					case *ssa.If, *ssa.Jump, *ssa.Return:
						st.ev = evDead
					}
				}
			}()
			forks := x.step(st)
			if len(forks) > 0 {
				panic(unsupported("fork in an initialiser"))
			}
			if st.ev == evHead { // loop in an initialiser: unroll concretely
				st.ev = evNone
				f := st.top()
				if f.unroll == nil {
					f.unroll = map[*ssa.BasicBlock]int{}
				}
				f.unroll[f.block] = 1
			}
		}()
	}
	st.frames = nil
}
