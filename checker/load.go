package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Dir  string
	Fset *token.FileSet
	Pkgs map[string]*packages.Package // by path below the module ("parallel")
	Prog *ssa.Program
	SSA  map[string]*ssa.Package
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	P := &Program{Dir: dir, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	var bad []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(bad, "; "))
	}
	prog, ssapkgs := ssautil.Packages(pk, ssa.BuilderMode(0))
	prog.Build()
	P.Prog = prog
	for i, p := range pk {
		if !strings.HasPrefix(p.PkgPath, modulePath) {
			continue
		}
		n := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modulePath), "/")
		P.Pkgs[n] = p
		P.SSA[n] = ssapkgs[i]
		P.Fset = p.Fset
	}
	if len(P.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages of %s found below %s", modulePath, dir)
	}
	return P, nil
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	x := P.Fset.Position(p)
	f, err := filepath.Rel(P.Dir, x.Filename)
	if err != nil {
		f = x.Filename
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

// fn finds a function or method: "parallel.Do", "pipeline.seqnode.Feed".
func (P *Program) fn(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	sp := P.SSA[parts[0]]
	if sp == nil {
		return nil
	}
	if len(parts) == 2 {
		return sp.Func(parts[1])
	}
	tn, _ := sp.Pkg.Scope().Lookup(parts[1]).(*types.TypeName)
	if tn == nil {
		return nil
	}
	n, _ := tn.Type().(*types.Named)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == parts[2] {
			return P.Prog.FuncValue(m)
		}
	}
	return nil
}

// allFuncs lists every source function of a package, closures included.
func (P *Program) allFuncs(pkg string) []*ssa.Function {
	var r []*ssa.Function
	sp := P.SSA[pkg]
	if sp == nil {
		return nil
	}
	var addf func(f *ssa.Function)
	addf = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil {
			return
		}
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			addf(a)
		}
	}
	scope := sp.Pkg.Scope()
	for _, n := range scope.Names() {
		switch o := scope.Lookup(n).(type) {
		case *types.Func:
			addf(P.Prog.FuncValue(o))
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && !o.IsAlias() {
				for i := 0; i < nt.NumMethods(); i++ {
					addf(P.Prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	if f := sp.Func("init"); f != nil {
		addf(f)
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

func ssaFn(t *Term) *ssa.Function {
	f, _ := t.Ref.(*ssa.Function)
	return f
}
