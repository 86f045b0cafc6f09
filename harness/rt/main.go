//go:build go1.22

package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

type result struct {
	Prop       string   `json:"prop"`
	Seed       int64    `json:"seed"`
	Evals      int64    `json:"evals"`
	Nontrivial int64    `json:"nontrivial"`
	Samples    []string `json:"samples"`
	Known      []string `json:"known,omitempty"`
	Violation  *viol    `json:"violation,omitempty"`
}

type viol struct {
	Prop  string `json:"prop"`
	Seed  int64  `json:"seed"`
	Case  int64  `json:"case"`
	Type  string `json:"type"`
	Input string `json:"input_hex"`
	Msg   string `json:"msg"`
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	from := flag.Int64("from", 0, "first case")
	step := flag.Int64("step", 1, "stride")
	n := flag.Int64("n", 1000, "number of cases")
	dur := flag.Duration("time", time.Hour, "time limit")
	out := flag.String("out", "", "result file")
	journal := flag.String("journal", "", "file with the number of the running case")
	probes := flag.Bool("probes", false, "run the known-finding probes")
	flag.Parse()
	fn := checks[*prop]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no such check")
		os.Exit(2)
	}
	res := &result{Prop: *prop, Seed: *seed}
	var jf *os.File
	if *journal != "" {
		jf, _ = os.Create(*journal)
	}
	finish := func() {
		if *out != "" {
			b, _ := json.MarshalIndent(res, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		if res.Violation != nil {
			fmt.Println(res.Violation.Msg)
			os.Exit(1)
		}
		os.Exit(0)
	}
	if *probes {
		res.Known = runProbes(*prop)
	}
	start := time.Now()
	seen := map[string]bool{}
	for i := int64(0); i < *n && time.Since(start) < *dur; i++ {
		idx := *from + i**step
		if jf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(idx))
			jf.WriteAt(b[:], 0)
		}
		c := &ctx{seed: *seed, idx: idx}
		r := newRng(*seed*1000003 + idx*7 + int64(len(*prop)) + int64((*prop)[len(*prop)-1])<<20 + int64((*prop)[len(*prop)-2])<<28)
		done := make(chan error, 1)
		go func() {
			var err error
			bad := safely("harness", func() error { err = fn(r, c); return nil })
			if bad != nil {
				err = bad
			}
			done <- err
		}()
		var err error
		select {
		case err = <-done:
		case <-time.After(100 * time.Second):
			err = fmt.Errorf("no answer within 100s")
		}
		res.Evals++
		if c.nontrivial && !seen[c.sample] {
			seen[c.sample] = true
			res.Nontrivial++
			if len(res.Samples) < 3 && len(c.sample) < 600 {
				res.Samples = append(res.Samples, c.sample)
			}
		}
		if err != nil {
			t := ""
			if c.typ != nil {
				t = c.typ.String()
			}
			res.Violation = &viol{Prop: *prop, Seed: *seed, Case: idx, Type: t, Input: fmt.Sprintf("%x", c.input[:min(len(c.input), 1<<16)]), Msg: strings.TrimSpace(err.Error())}
			finish()
		}
	}
	finish()
}

// runProbes exercises the recorded known findings and returns those that still fail.
func runProbes(prop string) []string {
	var known []string
	if prop == "P05" {
		// two records of a singular embedded message: protobuf merges them
		b := []byte{0x12, 2, 0x08, 1, 0x12, 4, 0x1a, 2, 0x08, 5} // next{v:1} next{list{v:5}}
		x := &Node{}
		if err, bad := unmarshalNode(x, b); err == nil && bad == nil {
			if x.Next == nil || x.Next.V != 1 || len(x.Next.List) != 1 {
				known = append(known, "repeated records of a singular embedded message are not merged, the last record replaces the message")
			}
		}
	}
	return known
}
