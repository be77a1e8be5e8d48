package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked module under analysis, in SSA form.
type Program struct {
	dir     string
	modPath string
	prog    *ssa.Program
	pkgs    []*packages.Package     // packages of the module
	spkgs   map[string]*ssa.Package // by import path, module only
	funcs   []*ssa.Function         // every function of the module with a body, sorted by name
	stdBody map[string]bool         // extra packages whose bodies are built
}

// Load type-checks every package of the module in dir (tests excluded, as in
// the build) and builds SSA.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax | packages.NeedModule,
		Dir:   dir,
		Env:   os.Environ(),
		Tests: false,
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(initial) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range initial {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		for _, e := range p.TypeErrors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	P := &Program{dir: dir, prog: prog, spkgs: map[string]*ssa.Package{}}
	for _, p := range initial {
		if p.Module == nil {
			continue
		}
		P.modPath = p.Module.Path
		P.pkgs = append(P.pkgs, p)
		sp := prog.Package(p.Types)
		if sp == nil {
			return nil, fmt.Errorf("no ssa for %s", p.PkgPath)
		}
		sp.Build()
		P.spkgs[p.PkgPath] = sp
	}
	for _, extra := range []string{"encoding/binary", "github.com/satori/go.uuid", "bytes", "io"} {
		for _, sp := range prog.AllPackages() {
			if sp.Pkg.Path() == extra {
				sp.Build()
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		P.funcs = append(P.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range P.spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool { return fname(P.funcs[i]) < fname(P.funcs[j]) })
	return P, nil
}

// fname is the short, stable name of a function: pkg.(*T).M
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	return shorten(s)
}

func shorten(s string) string {
	s = strings.ReplaceAll(s, "github.com/thesues/cannyls-go/", "")
	return s
}

func (P *Program) pos(i interface{ Pos() (p tokenPos) }) string {
	return P.posOf(i.Pos())
}

func (P *Program) posOf(p tokenPos) string {
	if !p.IsValid() {
		return "-"
	}
	pp := P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(strings.TrimPrefix(pp.Filename, P.dir), "/"), pp.Line)
}

func (P *Program) inModule(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if f.Pkg != nil {
		return P.spkgs[f.Pkg.Pkg.Path()] != nil
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return P.spkgs[o.Pkg().Path()] != nil
	}
	if f.Parent() != nil {
		return P.inModule(f.Parent())
	}
	return false
}

// pkg returns a package of the module by its path relative to the module.
func (P *Program) pkg(rel string) *ssa.Package {
	return P.spkgs[P.modPath+"/"+rel]
}

// named looks up a named type "storage/journal.PutRecord".
func (P *Program) named(rel string) *types.Named {
	i := strings.LastIndex(rel, ".")
	p := P.pkg(rel[:i])
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(rel[i+1:])
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// fn looks up a function "storage.OpenCannylsStorage".
func (P *Program) fn(rel string) *ssa.Function {
	i := strings.LastIndex(rel, ".")
	p := P.pkg(rel[:i])
	if p == nil {
		return nil
	}
	return p.Func(rel[i+1:])
}

// method looks up a method of a named type, pointer or value receiver.
func (P *Program) method(rel, name string) *ssa.Function {
	n := P.named(rel)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return P.prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (P *Program) methods(rel string) []*ssa.Function {
	n := P.named(rel)
	if n == nil {
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		out = append(out, P.prog.FuncValue(n.Method(i)))
	}
	return out
}
