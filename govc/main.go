package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	debug2 "runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Target struct {
	Name    string         `json:"name"`
	Kind    string         `json:"kind"` // contract, ensures, lemma
	Status  string         `json:"status"`
	Why     string         `json:"why,omitempty"`
	Obs     []Oblig        `json:"obligations"`
	Seconds float64        `json:"seconds"`
	Solver  float64        `json:"solver_seconds"`
	Queries int            `json:"queries"`
	Backs   map[string]int `json:"backends"`
	Used    []string       `json:"contracts_used"`
	Inlined []string       `json:"inlined"`
	Assumed []string       `json:"assumptions"`
	Paths   int            `json:"paths"`
}

type Report struct {
	Targets []Target `json:"targets"`
	Dropped []string `json:"dropped"`
	LoadSec float64  `json:"load_seconds"`
}

var (
	repo     = flag.String("repo", "/repo", "repository")
	cdir     = flag.String("contracts", "/verif/contracts", "contract directory")
	tgts     = flag.String("targets", "", "comma separated targets (pkg.Func), default all")
	tfile    = flag.String("targetfile", "", "file with targets")
	workers  = flag.Int("j", 1, "worker processes")
	list     = flag.Bool("list", false, "list targets")
	outFile  = flag.String("o", "", "JSON output file")
	verbose  = flag.Bool("v", false, "print obligations")
	debug    = flag.Bool("debug", false, "debug output")
	trace    = flag.Bool("trace", false, "trace execution")
	perT     = flag.Int("t", 100, "seconds per target")
	asWorker = flag.Bool("worker", false, "read targets from stdin, write JSON lines")
)

// allTargets maps names to functions under contract and lemmas
func (w *World) allTargets() map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	for fn := range ssautil.AllFunctions(w.prog) {
		pk := pkgPath(fn)
		if !strings.HasPrefix(pk, modPath) || fn.Synthetic != "" && fn.Origin() == nil || len(fn.Blocks) == 0 || fn.Parent() != nil {
			continue
		}
		short := strings.TrimPrefix(strings.TrimPrefix(pk, modPath), "/")
		if i := strings.LastIndexByte(short, '/'); i >= 0 {
			short = short[i+1:]
		}
		if strings.HasPrefix(fn.Name(), "Lemma_") {
			r[short+"."+fn.Name()] = fn
			continue
		}
		if isContractName(fn.Name()) || fn.TypeParams().Len() > 0 && fn.Origin() == nil {
			continue
		}
		if c := w.contract(fn); c != nil && !(c.model && c.def == nil && c.ensures == nil) {
			n := short + "." + baseName(fn)
			if ta := fn.TypeArgs(); len(ta) > 0 {
				var ts []string
				for _, t := range ta {
					ts = append(ts, regionOf(t))
				}
				n += "[" + strings.Join(ts, ",") + "]"
			}
			if c.split != nil {
				// two proofs: where Split_ holds and where it does not
				r[n+"/1"], r[n+"/2"] = fn, fn
				continue
			}
			r[n] = fn
		}
	}
	return r
}

func main() {
	flag.Parse()
	debug2.SetGCPercent(400)
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	w := loadWorld(*repo, *cdir)
	sol := newSolver()
	w.initGlobals(sol)
	load := time.Since(t0).Seconds()
	all := w.allTargets()
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	if *list {
		for _, n := range names {
			fmt.Println(n)
		}
		for _, d := range w.dropped {
			fmt.Fprintln(os.Stderr, "dropped:", d)
		}
		return
	}
	want := names
	if *tgts != "" {
		want = nil
		for _, t := range strings.Split(*tgts, ",") {
			if strings.ContainsAny(t, "*") {
				for _, n := range names {
					if ok := globMatch(t, n); ok {
						want = append(want, n)
					}
				}
			} else {
				want = append(want, t)
			}
		}
	}
	if *tfile != "" {
		want = nil
		b, _ := os.ReadFile(*tfile)
		for _, t := range strings.Fields(string(b)) {
			want = append(want, t)
		}
	}
	dup := map[string]bool{}
	uniq := want[:0:0]
	for _, n := range want {
		if !dup[n] {
			dup[n] = true
			uniq = append(uniq, n)
		}
	}
	want = uniq
	// functions split for their size take longest
	sort.SliceStable(want, func(i, j int) bool {
		return strings.Contains(want[i], "/") && !strings.Contains(want[j], "/")
	})
	if *asWorker {
		dec := json.NewDecoder(os.Stdin)
		enc := json.NewEncoder(os.Stdout)
		for {
			var n string
			if dec.Decode(&n) != nil {
				return
			}
			if n == "?" {
				enc.Encode(Target{Name: "?", Inlined: w.dropped, Used: names})
				continue
			}
			enc.Encode(w.verify(sol, n, all[n]))
		}
	}
	rep := Report{Dropped: w.dropped, LoadSec: load}
	if *workers > 1 && len(want) > 1 {
		rep.Targets = parallel(want)
	} else {
		for _, n := range want {
			rep.Targets = append(rep.Targets, w.verify(sol, n, all[n]))
		}
	}
	bad := 0
	for _, t := range rep.Targets {
		d, f := 0, 0
		for _, o := range t.Obs {
			if o.Result == "discharged" {
				d++
			} else {
				f++
			}
		}
		if t.Status != "proved" {
			bad++
		}
		fmt.Printf("%-12s %-50s %3d discharged %2d failed  %5.1fs (solver %.1fs, %d queries) %s\n", t.Status, t.Name, d, f, t.Seconds, t.Solver, t.Queries, t.Why)
		if *verbose {
			for _, o := range t.Obs {
				if o.Result != "discharged" {
					fmt.Printf("    %s %s %s\n      %s\n", o.Result, o.Name, o.Pos, strings.ReplaceAll(o.Detail, "\n", "\n      "))
				}
			}
		}
	}
	fmt.Printf("%d targets, %d not proved, load %.1fs, total %.1fs\n", len(rep.Targets), bad, load, time.Since(t0).Seconds())
	if *outFile != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*outFile, b, 0o644)
	}
	sol.close()
	if bad > 0 {
		os.Exit(1)
	}
}

func globMatch(p, s string) bool {
	parts := strings.Split(p, "*")
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for i := 1; i < len(parts); i++ {
		if i == len(parts)-1 {
			return strings.HasSuffix(s, parts[i])
		}
		j := strings.Index(s, parts[i])
		if j < 0 {
			return false
		}
		s = s[j+len(parts[i]):]
	}
	return s == ""
}

func parallel(want []string) []Target {
	n := *workers
	if n > len(want) {
		n = len(want)
	}
	var mu sync.Mutex
	next := 0
	res := make([]Target, len(want))
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var enc *json.Encoder
			var dec *json.Decoder
			stop := func() {
				if cmd != nil {
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
				}
			}
			defer stop()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(want) {
					return
				}
				if cmd == nil {
					cmd = exec.Command(os.Args[0], "-worker", "-repo", *repo, "-contracts", *cdir, fmt.Sprintf("-t=%d", *perT))
					cmd.Stderr = os.Stderr
					in, _ := cmd.StdinPipe()
					out, _ := cmd.StdoutPipe()
					if err := cmd.Start(); err != nil {
						res[i] = Target{Name: want[i], Status: "error", Why: err.Error()}
						cmd = nil
						continue
					}
					enc, dec = json.NewEncoder(in), json.NewDecoder(out)
				}
				kill := time.AfterFunc(time.Duration(*perT+60)*time.Second, func() { cmd.Process.Kill() })
				err := enc.Encode(want[i])
				if err == nil {
					err = dec.Decode(&res[i])
				}
				kill.Stop()
				if err != nil {
					res[i] = Target{Name: want[i], Status: "unknown", Why: "worker ended: " + err.Error()}
					stop()
				}
			}
		}()
	}
	wg.Wait()
	return res
}

func (w *World) newExec(sol *Solver, name string) *Exec {
	return &Exec{w: w, sol: sol, name: name, inlineIn: map[string]bool{}, assumed: map[string]bool{}, used: map[string]bool{},
		maxSteps: 3000000, debug: *debug, trace: *trace, paramBufs: map[int]*Term{}, objN: 2000000, bufN: 1000000, sums: map[*pcNode]*factSum{}, effects: map[string]string{}, zeroBufs: map[string]int{}, ccs: map[*pcNode]*closure{}}
}

// symArgs builds symbolic parameters
func (x *Exec) symArgs(st *State, fn *ssa.Function) []Value {
	var args []Value
	for k, p := range fn.Params {
		args = append(args, x.symParam(st, fmt.Sprintf("arg%d:%s", k, p.Name()), p.Type()))
	}
	return args
}

func (w *World) verify(sol *Solver, name string, fn *ssa.Function) (t Target) {
	t = Target{Name: name, Kind: "contract", Status: "proved"}
	start := time.Now()
	if fn == nil {
		t.Status, t.Why = "missing", "function not found"
		return
	}
	sol.queries, sol.time, sol.byBack = 0, 0, map[string]int{}
	sol.cache = map[string]Result{}
	sol.close()
	x := w.newExec(sol, name)
	x.target = fn
	sol.deadline = time.Now().Add(time.Duration(*perT) * time.Second)
	x.deadline = sol.deadline
	defer func() {
		if r := recover(); r != nil {
			switch m := r.(type) {
			case unsupported:
				t.Status, t.Why = "unsupported", string(m)
			case mismatch:
				t.Status, t.Why = "failed", string(m)
				x.obs = append(x.obs, Oblig{Name: "loops of code and contract agree", Result: "failed", Detail: string(m)})
			case broken:
				t.Status, t.Why = "failed", string(m)
				x.obs = append(x.obs, Oblig{Name: "an iteration of the loop equals the contract", Result: "failed", Detail: string(m)})
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				t.Status, t.Why = "unsupported", fmt.Sprint("internal: ", r)
			}
		}
		for _, o := range x.obs {
			if o.Result != "discharged" && t.Status == "proved" {
				t.Status = "failed"
				t.Why = o.Name + " " + o.Pos
			}
		}
		t.Obs = x.obs
		t.Seconds = time.Since(start).Seconds()
		t.Solver = sol.time.Seconds()
		t.Queries = sol.queries
		t.Backs = sol.byBack
		t.Used, t.Inlined, t.Assumed = sortedKeys(x.used), sortedKeys(x.inlineIn), sortedKeys(x.assumed)
		if t.Status == "proved" && len(x.obs) == 0 {
			t.Status, t.Why = "vacuous", "no obligation was generated"
		}
		t.Paths = x.paths
		if t.Status == "proved" && !x.alive {
			t.Status, t.Why = "vacuous", "no returning path is satisfiable"
		}
	}()
	st := x.newState()
	st.spec = false
	args := x.symArgs(st, fn)
	if fn.Pkg != nil {
		for _, m := range sortedKeys(fn.Pkg.Members) {
			if g, ok := fn.Pkg.Members[m].(*ssa.Global); ok && isContractGlobal(g) {
				st.globalObj(g)
			}
		}
	}
	if strings.HasPrefix(fn.Name(), "Lemma_") {
		t.Kind = "lemma"
		st.push(fn, args, nil, nil)
		x.entryState = st.clone()
		for _, o := range x.pairs(pair{c: st}) {
			x.endSolo(o.c)
		}
		return
	}
	ct := w.contract(fn)
	if ct.assumes != nil {
		x.trust(ct.assumes.Name())
		st.assume(x.evalPure(st, ct.assumes, args))
	}
	if ct.split != nil {
		c := x.evalPure(st, ct.split, args)
		if strings.HasSuffix(name, "/2") {
			c = tNot(c)
		}
		st.assume(c)
	}
	if ct.requires != nil {
		st.assume(x.evalPure(st, ct.requires, args))
		if !st.feasible() {
			x.record("precondition is satisfiable", "", Sat, "")
			return
		}
		x.record("precondition is satisfiable", "", Unsat, "")
	}
	spec := ct.def
	if spec == nil {
		spec = ct.spec
	}
	if spec != nil {
		c := st
		s := st.clone()
		s.spec = true
		c.push(fn, args, nil, nil)
		s.push(spec, args, nil, nil)
		x.entryState = st.clone()
		x.finish(pair{c, s}, fn.Signature, name)
	}
	if ct.ensures != nil {
		// the postcondition: of the contract body when there is one (the code
		// equals it), else of the code
		t.Kind = "contract+ensures"
		e := x.newState()
		e.pc = nil
		x2args := x.symArgs(e, fn)
		if ct.assumes != nil {
			e.assume(x.evalPure(e, ct.assumes, x2args))
		}
		if ct.requires != nil {
			e.assume(x.evalPure(e, ct.requires, x2args))
		}
		e.push(fn, x2args, nil, nil)
		x.entryState = e.clone()
		for _, o := range x.pairs(pair{c: e}) {
			if o.c.ev != evRet {
				x.endSolo(o.c)
				continue
			}
			x.live(o.c)
			// arguments are passed by value: their slices keep len and backing
			g := x.evalPure(o.c, ct.ensures, append(append([]Value{}, x2args...), o.c.results...))
			o.c.spec = false
			x.oblige(o.c, "postcondition "+ct.ensures.Name(), o.c.evPos, g)
		}
	}
	return
}

func (x *Exec) endSolo(o *State) {
	switch o.ev {
	case evPanic:
		r := x.sol.check(o.facts(), true)
		if r == Sat || r == Unknown {
			x.record("no panic", o.evPos, r, o.evInfo+"\n"+x.factsStr(o))
		} else {
			x.record("no panic", o.evPos, Unsat, "")
		}
	case evRet:
		x.live(o)
		x.record("returns", o.evPos, Unsat, "")
	}
}
