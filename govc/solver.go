package main

// Solver front end: an incremental z3 process plus one-shot fall-backs.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	defd  map[*Term]bool
	ufs   map[string]bool
	cache map[string]Result
	// statistics
	queries  int
	cached   int
	time     time.Duration
	byBack   map[string]int
	timeouts int
	models   []*Model
	stack    []*Term // facts asserted in the running solver, one level each
	byModel  int
	softMS   int
	deadline time.Time
}

func newSolver() *Solver {
	s := &Solver{cache: map[string]Result{}, byBack: map[string]int{}, softMS: 20000}
	s.start()
	return s
}

var softRlimit = 8000000

var z3bin = "z3-new"

func (s *Solver) start() {
	s.cmd = exec.Command(z3bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start", z3bin, err)
		os.Exit(3)
	}
	s.defd = map[*Term]bool{}
	s.ufs = map[string]bool{}
	s.stack = nil
	// a resource limit, not a time limit: the answer must not depend on load
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-logic QF_UFBV)\n(set-option :smt.phase_selection 0)\n")
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :rlimit %d)\n", s.softMS, softRlimit)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func tname(t *Term) string { return "t" + strconv.Itoa(t.id) }

// declare emits declarations and definitions for every node below ts
func declTerms(ts []*Term, defd map[*Term]bool, ufs map[string]bool, w *strings.Builder) {
	walk(ts, defd, func(t *Term) {
		switch t.op {
		case OpConst:
			return
		case OpVar:
			if !ufs[t.name] {
				ufs[t.name] = true
				if isStrConst(t) {
					fmt.Fprintf(w, "(define-fun %s () %s #x%016x)\n", quoteSym(t.name), sortStr(t.w), strConstNum(t))
					return
				}
				fmt.Fprintf(w, "(declare-fun %s () %s)\n", quoteSym(t.name), sortStr(t.w))
			}
			return
		case OpUF:
			if !ufs[t.name] {
				ufs[t.name] = true
				d := tc.ufs[t.name]
				if t.name == "varlen" {
					w.WriteString(varlenDef)
					break
				}
				var as []string
				for _, a := range d.args {
					as = append(as, sortStr(a))
				}
				fmt.Fprintf(w, "(declare-fun %s (%s) %s)\n", quoteSym(t.name), strings.Join(as, " "), sortStr(d.ret))
			}
		case OpMul:
			n := "mul" + strconv.Itoa(t.w)
			if !ufs[n] {
				ufs[n] = true
				fmt.Fprintf(w, "(declare-fun |%s| (%s %s) %s)\n", n, sortStr(t.w), sortStr(t.w), sortStr(t.w))
			}
		}
		fmt.Fprintf(w, "(define-fun %s () %s %s)\n", tname(t), sortStr(t.w), t.smt(ref))
	})
}

func ref(t *Term) string {
	switch t.op {
	case OpConst:
		return t.smt(nil)
	case OpVar:
		return quoteSym(t.name)
	}
	return tname(t)
}

func cacheKey(ts []*Term) string {
	ids := make([]int, len(ts))
	for i, t := range ts {
		ids[i] = t.id
	}
	sort.Ints(ids)
	var b strings.Builder
	for i, id := range ids {
		if i > 0 && ids[i-1] == id {
			continue
		}
		b.WriteString(strconv.Itoa(id))
		b.WriteByte(',')
	}
	return b.String()
}

// relevant keeps the facts of pc connected to the goal through shared symbols
// (sound for unsat: fewer assumptions). Facts are only filtered when pc is long.
func (s *Solver) check(fs []*Term, hard bool) Result {
	out := fs[:0:0]
	for _, f := range fs {
		if f == tFls {
			return Unsat
		}
		if f != tTrue {
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		return Sat
	}
	key := cacheKey(out)
	if r, ok := s.cache[key]; ok && (r != Unknown || !hard) {
		s.cached++
		return r
	}
	t0 := time.Now()
	if s.tryModels(out) || s.repair(out) {
		s.byModel++
		s.cache[key] = Sat
		s.time += time.Since(t0)
		return Sat
	}
	r := s.incr(out)
	if r == Unknown && hard {
		r = s.oneShot(out)
	}
	s.time += time.Since(t0)
	if os.Getenv("GOVC_Q") != "" {
		fmt.Fprintf(os.Stderr, "Q %v %v %d hard=%v %.1300s\n", r, time.Since(t0).Milliseconds(), len(out), hard, out[len(out)-1])
	}
	if os.Getenv("GOVC_Q") == "2" && s.queries > 20 {
		for _, f := range out {
			fmt.Fprintf(os.Stderr, "   F %.300s\n", f)
		}
	}
	if d := time.Since(t0); debugSlow && d > time.Second {
		fmt.Fprintf(os.Stderr, "slow query %v -> %v (%d facts)\n", d, r, len(out))
		for _, f := range fs {
			fmt.Fprintln(os.Stderr, "  ", f)
		}
	}
	s.queries++
	s.cache[key] = r
	return r
}

var debugSlow = os.Getenv("GOVC_SLOW") != ""

func (s *Solver) incr(fs []*Term) Result {
	if s.cmd == nil {
		s.start()
	}
	var w strings.Builder
	declTerms(fs, s.defd, s.ufs, &w)
	// the facts of a path stay asserted for the next query on it
	k := 0
	for k < len(s.stack) && k < len(fs) && s.stack[k] == fs[k] {
		k++
	}
	if d := len(s.stack) - k; d > 0 {
		fmt.Fprintf(&w, "(pop %d)\n", d)
	}
	for _, f := range fs[k:] {
		w.WriteString("(push)(assert " + ref(f) + ")\n")
	}
	s.stack = append(s.stack[:k], fs[k:]...)
	w.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, w.String()); err != nil {
		s.close()
		return Unknown
	}
	timer := time.AfterFunc(time.Duration(s.softMS)*time.Millisecond*2+2*time.Second, func() {
		if s.cmd != nil {
			s.cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	broken := false
	for {
		line, err := s.out.ReadString('\n')
		if broken && err == nil && !strings.HasPrefix(line, "(error") {
			s.close()
			return Unknown
		}
		if err != nil {
			s.close()
			s.timeouts++
			return Unknown
		}
		switch strings.TrimSpace(line) {
		case "sat":
			s.byBack["z3-incremental"]++
			if ls := leaves(fs); len(ls) > 0 && os.Getenv("NOMODEL") == "" {
				var q strings.Builder
				q.WriteString("(get-value (")
				for _, t := range ls {
					q.WriteString(" " + ref(t))
				}
				q.WriteString("))\n")
				io.WriteString(s.in, q.String())
				s.readModel(fs, ls)
			}
			return Sat
		case "unsat":
			s.byBack["z3-incremental"]++
			return Unsat
		case "unknown", "timeout":
			s.timeouts++
			return Unknown
		default:
			if strings.HasPrefix(line, "(error") {
				fmt.Fprintln(os.Stderr, "solver:", line)
				broken = true
				if os.Getenv("GOVC_DEBUG") != "" {
					os.WriteFile("/tmp/govc-bad.smt2", []byte(w.String()), 0o644)
				}
			}
		}
	}
}

func script(fs []*Term) string {
	var w strings.Builder
	w.WriteString("(set-logic QF_UFBV)\n")
	declTerms(fs, map[*Term]bool{}, map[string]bool{}, &w)
	for _, f := range fs {
		w.WriteString("(assert " + ref(f) + ")\n")
	}
	w.WriteString("(check-sat)\n")
	return w.String()
}

type backend struct {
	name string
	args []string
}

var backends = []backend{
	{"z3-new", []string{"z3-new", "-in", "-smt2", "-T:20"}},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--tlimit=20000"}},
	{"z3", []string{"z3", "-in", "-smt2", "-T:20"}},
}

func (s *Solver) oneShot(fs []*Term) Result {
	txt := script(fs)
	type ans struct {
		r    Result
		name string
	}
	ch := make(chan ans, len(backends))
	var cmds []*exec.Cmd
	for _, b := range backends {
		cmd := exec.Command(b.args[0], b.args[1:]...)
		cmd.Stdin = strings.NewReader(txt)
		cmds = append(cmds, cmd)
		go func(b backend, cmd *exec.Cmd) {
			out, _ := cmd.Output()
			r := Unknown
			switch {
			case strings.HasPrefix(string(out), "unsat"):
				r = Unsat
			case strings.HasPrefix(string(out), "sat"):
				r = Sat
			}
			ch <- ans{r, b.name}
		}(b, cmd)
	}
	res := Unknown
	for range backends {
		a := <-ch
		if a.r != Unknown {
			res = a.r
			s.byBack[a.name]++
			break
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	return res
}
