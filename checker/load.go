package main

import (
	"fmt"
	"go/token"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	dir   string
	prog  *ssa.Program
	pkgs  []*packages.Package
	ssa   map[string]*ssa.Package
	fset  *token.FileSet
	globs map[*ssa.Global]*globInit
}

func (p *Program) pos(ps token.Pos) string {
	q := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.dir+"/"), q.Line)
}

// loadProgram type-checks dir (with overlay files) and builds SSA for the module's packages.
func loadProgram(dir string, overlay map[string][]byte, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Overlay: overlay,
		Fset:    token.NewFileSet(),
	}
	pats := []string{"./..."}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	n := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				n++
				fmt.Fprintln(os.Stderr, "load:", p.PkgPath, e)
			}
		}
	})
	if n > 0 {
		return nil, fmt.Errorf("%d package errors", n)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Program{dir: dir, prog: prog, pkgs: pkgs, ssa: map[string]*ssa.Package{}, fset: cfg.Fset}
	for _, sp := range spkgs {
		if sp != nil {
			r.ssa[sp.Pkg.Path()] = sp
		}
	}
	return r, nil
}
