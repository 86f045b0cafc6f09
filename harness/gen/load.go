//go:build go1.22

package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

type fatalMsg struct{ s string }

type quiet struct{}

func (quiet) Fatalf(f string, a ...any) { panic(fatalMsg{fmt.Sprintf(f, a...)}) }
func (quiet) Printf(f string, a ...any) {}

// outcome is what the generator makes of a world.
type outcome struct {
	fatal  string
	panicv string
	protos []*prutalgen.Proto
	byFile map[*fileM]*prutalgen.Proto
	src    map[*fileM][]byte
}

func scratch() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	d, err := os.MkdirTemp(d, "gen")
	if err != nil {
		panic(err)
	}
	return d
}

var dir = scratch()

// run loads the files of the world from its root and generates code for all of them.
func (g *gen) run(getter bool) (o *outcome) {
	o = &outcome{byFile: map[*fileM]*prutalgen.Proto{}, src: map[*fileM][]byte{}}
	for _, f := range g.files {
		os.WriteFile(filepath.Join(dir, f.name), []byte(f.text()), 0o644)
	}
	defer func() {
		for _, f := range g.files {
			os.Remove(filepath.Join(dir, f.name))
		}
		if r := recover(); r != nil {
			if m, ok := r.(fatalMsg); ok {
				o.fatal = m.s
			} else {
				o.panicv = fmt.Sprint(r) + "\n" + string(debug.Stack())
			}
		}
	}()
	l := prutalgen.NewLoader([]string{dir}, nil)
	l.SetLogger(quiet{})
	o.protos = l.LoadProto(g.files[0].name)
	for _, p := range o.protos {
		for _, f := range g.files {
			if filepath.Base(p.ProtoFile) == f.name {
				o.byFile[f] = p
			}
		}
	}
	cg := prutalgen.NewGoCodeGen()
	cg.Getter = getter
	for _, f := range g.files {
		p := o.byFile[f]
		if p == nil {
			continue
		}
		w := prutalgen.NewCodeWriter("// Code generated by prutalgen. DO NOT EDIT.", p.GoPackage)
		cg.ProtoGen(p, w)
		o.src[f] = append([]byte{}, w.Bytes()...)
	}
	return o
}

// ---- Go side ----

type goWorld struct {
	fset  *token.FileSet
	asts  map[*fileM]*ast.File
	pkgs  map[string]*types.Package
	files map[string][]*fileM
	errs  []string
	busy  map[string]bool
	cycle bool
}

const strconvStub = "package strconv\nfunc Itoa(i int) string { return \"\" }\n"

func (w *goWorld) Import(path string) (*types.Package, error) {
	if p := w.pkgs[path]; p != nil {
		return p, nil
	}
	if w.busy[path] {
		w.cycle = true
		return nil, fmt.Errorf("import cycle")
	}
	w.busy[path] = true
	defer delete(w.busy, path)
	var asts []*ast.File
	if path == "strconv" {
		a, _ := parser.ParseFile(w.fset, "strconv.go", strconvStub, 0)
		asts = append(asts, a)
	} else if len(w.files[path]) == 0 {
		return nil, fmt.Errorf("package %s is not generated", path)
	}
	for _, f := range w.files[path] {
		asts = append(asts, w.asts[f])
	}
	conf := types.Config{Importer: w, Error: func(err error) { w.errs = append(w.errs, err.Error()) }}
	p, _ := conf.Check(path, w.fset, asts, nil)
	w.pkgs[path] = p
	return p, nil
}

func (g *gen) check(o *outcome) *goWorld {
	w := &goWorld{fset: token.NewFileSet(), asts: map[*fileM]*ast.File{}, pkgs: map[string]*types.Package{}, files: map[string][]*fileM{}, busy: map[string]bool{}}
	for _, f := range g.files {
		if o.src[f] == nil {
			continue
		}
		a, err := parser.ParseFile(w.fset, f.name+".go", o.src[f], parser.ParseComments)
		if err != nil {
			w.errs = append(w.errs, "parse: "+err.Error())
			continue
		}
		w.asts[f] = a
		w.files[f.goImport] = append(w.files[f.goImport], f)
	}
	if len(w.errs) > 0 {
		return w
	}
	for _, f := range g.files {
		if w.asts[f] != nil {
			w.Import(f.goImport)
		}
	}
	return w
}

// structOf returns the declaration of a struct type in a generated file.
func structOf(a *ast.File, name string) *ast.StructType {
	for _, d := range a.Decls {
		if gd, ok := d.(*ast.GenDecl); ok {
			for _, s := range gd.Specs {
				if ts, ok := s.(*ast.TypeSpec); ok && ts.Name.Name == name {
					st, _ := ts.Type.(*ast.StructType)
					return st
				}
			}
		}
	}
	return nil
}

func tagOf(f *ast.Field) string {
	if f.Tag == nil {
		return ""
	}
	return strings.Trim(f.Tag.Value, "`")
}
