//go:build go1.22

package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// kept are worlds whose generated code is compiled and run after the static checks.
var kept []keptWorld

type keptWorld struct {
	g    *gen
	srcs map[string]string // path below the module -> code
	main []string          // imports and registrations
	reg  []string
}

var keepMax = 0

func keep(g *gen, o *outcome, w *goWorld) {
	if len(kept) >= keepMax || w.cycle || len(w.errs) > 0 {
		return
	}
	k := keptWorld{g: g, srcs: map[string]string{}}
	wi := len(kept)
	alias := map[string]string{}
	for i, f := range g.files {
		if o.src[f] == nil {
			continue
		}
		s := strings.ReplaceAll(string(o.src[f]), `"x.io/`, fmt.Sprintf(`"x.io/w%d/`, wi))
		k.srcs[fmt.Sprintf("w%d/%s/f%d.go", wi, strings.TrimPrefix(f.goImport, "x.io/"), i)] = s
		for _, m := range f.allMsgs() {
			a := alias[f.goImport]
			if a == "" {
				a = fmt.Sprintf("w%dp%d", wi, i)
				alias[f.goImport] = a
				k.main = append(k.main, fmt.Sprintf("%s %q", a, fmt.Sprintf("x.io/w%d/%s", wi, strings.TrimPrefix(f.goImport, "x.io/"))))
			}
			k.reg = append(k.reg, fmt.Sprintf("check(%d, %q, (*%s.%s)(nil))", wi, m.rel(), a, goName(m)))
		}
	}
	kept = append(kept, k)
}

// runKept compiles the kept worlds with the repository and runs them.
func runKept(prop string) error {
	if len(kept) == 0 {
		return nil
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	mod := filepath.Join(dir, "mod")
	defer os.RemoveAll(mod)
	put := func(name, s string) {
		fn := filepath.Join(mod, name)
		os.MkdirAll(filepath.Dir(fn), 0o755)
		os.WriteFile(fn, []byte(s), 0o644)
	}
	put("go.mod", "module x.io\n\ngo 1.20\n\nrequire github.com/cloudwego/prutal v0.0.0\n\nreplace github.com/cloudwego/prutal => "+repo+"\n")
	var imps, regs []string
	for _, k := range kept {
		for n, s := range k.srcs {
			put(n, s)
		}
		imps = append(imps, k.main...)
		regs = append(regs, k.reg...)
	}
	put("main.go", strings.Replace(strings.Replace(runnerSrc, "//IMPORTS", strings.Join(imps, "\n"), 1), "//CHECKS", strings.Join(regs, "\n"), 1))
	cmd := exec.Command("go", "build", "-o", "run", ".")
	cmd.Dir = mod
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("generated code does not compile: %s", tail(string(out)))
	}
	cmd = exec.Command(filepath.Join(mod, "run"), prop)
	cmd.Dir = mod
	out, err := cmd.CombinedOutput()
	if err != nil {
		s := string(out)
		txt := ""
		var wi int
		if i := strings.Index(s, "WORLD "); i >= 0 {
			if _, e := fmt.Sscanf(s[i:], "WORLD %d", &wi); e == nil && wi < len(kept) {
				txt = kept[wi].g.text()
			}
		}
		return fmt.Errorf("running the generated code: %s\n%s", tail(s), txt)
	}
	return nil
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

const runnerSrc = `package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/cloudwego/prutal"
//IMPORTS
)

func bad(w int, name, f string, a ...interface{}) {
	fmt.Printf("WORLD %d message %s: %s\n", w, name, fmt.Sprintf(f, a...))
	os.Exit(1)
}

func fillv(v reflect.Value, depth int, n *int) {
	*n++
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int32, reflect.Int64:
		v.SetInt(int64(*n) - 3)
		if *n == 3 {
			v.SetInt(-1)
		}
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(*n))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(*n) + 0.5)
	case reflect.String:
		v.SetString(fmt.Sprint("s", *n))
	case reflect.Ptr:
		if v.Type().Elem().Kind() == reflect.Struct && depth <= 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fillv(v.Elem(), depth-1, n)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(fmt.Sprint("b", *n)))
			return
		}
		if depth <= 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), 3, 3)
		for i := 0; i < 3; i++ {
			fillv(s.Index(i), depth-1, n)
			if s.Index(i).Kind() == reflect.Ptr && s.Index(i).IsNil() {
				return
			}
		}
		v.Set(s)
	case reflect.Map:
		if depth <= 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := 0; i < 2; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fillv(k, depth-1, n)
			fillv(e, depth-1, n)
			if e.Kind() == reflect.Ptr && e.IsNil() {
				return
			}
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if _, ok := v.Type().Field(i).Tag.Lookup("protobuf"); ok {
				fillv(v.Field(i), depth, n)
			}
		}
		if v.CanAddr() {
			for _, w := range wrappers(v.Addr()) {
				f := oneofField(v, w)
				if k := w.Type().Elem().Field(0).Type.Kind(); depth <= 0 && (k == reflect.Struct || k == reflect.Ptr) {
					continue
				}
				if f.IsValid() && (f.IsNil() || *n%2 == 0) {
					x := reflect.New(w.Type().Elem())
					fillv(x.Elem().Field(0), depth-1, n)
					if fv := x.Elem().Field(0); fv.Kind() != reflect.Ptr || !fv.IsNil() {
						f.Set(x)
					}
				}
			}
		}
	}
}

func wrappers(p reflect.Value) (r []reflect.Value) {
	if x, ok := p.Interface().(interface{ XXX_OneofWrappers() []interface{} }); ok {
		for _, w := range x.XXX_OneofWrappers() {
			r = append(r, reflect.ValueOf(w))
		}
	}
	return
}

func oneofField(v, w reflect.Value) reflect.Value {
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Interface && w.Type().Implements(f.Type()) {
			return f
		}
	}
	return reflect.Value{}
}

func getters(w int, name string, p reflect.Value, what string) {
	for i := 0; i < p.NumMethod(); i++ {
		mt := p.Type().Method(i)
		if !strings.HasPrefix(mt.Name, "Get") || mt.Type.NumIn() != 1 || mt.Type.NumOut() != 1 {
			continue
		}
		if r := p.Method(i).Call(nil)[0]; !r.IsZero() {
			bad(w, name, "%s of %s returns %v", mt.Name, what, r)
		}
	}
}

func same(got, field reflect.Value) bool {
	if field.Kind() == reflect.Ptr && got.Kind() != reflect.Ptr {
		field = field.Elem()
	}
	return got.Type() == field.Type() && reflect.DeepEqual(got.Interface(), field.Interface())
}

func check(w int, name string, nilp interface{}) {
	np := reflect.ValueOf(nilp)
	t := np.Type().Elem()
	if os.Args[1] == "P14" {
		getters(w, name, np, "a nil message")
		getters(w, name, reflect.New(t), "an empty message")
		n := 0
		x := reflect.New(t)
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if _, ok := f.Tag.Lookup("protobuf"); !ok {
				continue
			}
			fillv(x.Elem().Field(i), 2, &n)
			g := x.MethodByName("Get" + f.Name)
			if !g.IsValid() {
				bad(w, name, "no getter of %s", f.Name)
			}
			if x.Elem().Field(i).IsZero() {
				continue
			}
			if r := g.Call(nil)[0]; !same(r, x.Elem().Field(i)) {
				bad(w, name, "getter of %s returns %v for %v", f.Name, r, x.Elem().Field(i))
			}
		}
		for _, wr := range wrappers(x) {
			f := oneofField(x.Elem(), wr)
			if !f.IsValid() {
				bad(w, name, "no oneof takes %s", wr.Type())
			}
			v := reflect.New(wr.Type().Elem())
			fillv(v.Elem().Field(0), 2, &n)
			f.Set(v)
			fn := wr.Type().Elem().Field(0).Name
			for _, wr2 := range wrappers(x) {
				fn2 := wr2.Type().Elem().Field(0).Name
				r := x.MethodByName("Get" + fn2).Call(nil)[0]
				if fn2 == fn && !reflect.DeepEqual(r.Interface(), v.Elem().Field(0).Interface()) {
					bad(w, name, "getter of %s returns %v", fn, r)
				}
				if fn2 != fn && oneofField(x.Elem(), wr2) == f && !r.IsZero() {
					bad(w, name, "getter of %s returns %v while %s is set", fn2, r, fn)
				}
			}
		}
		return
	}
	n := 0
	for d := 0; d < 3; d++ {
		x := reflect.New(t)
		if d > 0 {
			fillv(x.Elem(), d, &n)
		}
		b, err := prutal.Marshal(x.Interface())
		if err != nil {
			if d == 0 || strings.Contains(err.Error(), "required") {
				if strings.Contains(err.Error(), "required") {
					continue
				}
			}
			bad(w, name, "marshal: %v", err)
		}
		y := reflect.New(t)
		if err := prutal.Unmarshal(b, y.Interface()); err != nil {
			if strings.Contains(err.Error(), "required") {
				continue
			}
			bad(w, name, "unmarshal: %v", err)
		}
		b2, err := prutal.Marshal(y.Interface())
		if err != nil || len(b) != len(b2) {
			bad(w, name, "round trip of %+v gives %+v (%v)", x.Elem(), y.Elem(), err)
		}
	}
}

func main() {
//CHECKS
}
`
