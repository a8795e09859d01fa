package main

// Loading of the program under verification.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "vibe-lsm"

type Prog struct {
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by path
	specs   *Specs
	mu      sync.Mutex
	loopTab map[*ssa.Function]*loopInfo
	calls   map[*ssa.BasicBlock]map[string]bool
	fns     map[string]*ssa.Function // by key; generic functions: their instances in order
	insts   map[string][]*ssa.Function
}

func loadProg(dir string, specDir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, "./pkg/...", "./cmd/...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pg := &Prog{fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, loopTab: map[*ssa.Function]*loopInfo{}, calls: map[*ssa.BasicBlock]map[string]bool{}, fns: map[string]*ssa.Function{}, insts: map[string][]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		pg.pkgs[p.Pkg.Path()] = p
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil && fn.Origin() == nil {
			continue
		}
		pk := fn.Pkg
		if pk == nil {
			pk = fn.Origin().Pkg
		}
		if pk == nil || !pg.isRepo(pk) || len(fn.Blocks) == 0 {
			continue
		}
		if fn.TypeParams() != nil && fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		if fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		k := fnKey(fn)
		if fn.Origin() != nil {
			k = fnKey(fn)
		}
		pg.insts[k] = append(pg.insts[k], fn)
		pg.fns[k] = fn
	}
	for _, l := range pg.insts {
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				if l[j].String() < l[i].String() {
					l[i], l[j] = l[j], l[i]
				}
			}
		}
	}
	if specDir != "" {
		pg.specs, err = loadSpecs(specDir)
		if err != nil {
			return nil, err
		}
	}
	return pg, nil
}

func (pg *Prog) isRepo(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && (p.Pkg.Path() == modPath || strings.HasPrefix(p.Pkg.Path(), modPath+"/"))
}

// inlinable: functions of the repository, and small pure helpers of the standard library
func (pg *Prog) inlinable(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Parent() != nil {
		q := fn.Parent()
		for q.Parent() != nil {
			q = q.Parent()
		}
		p = q.Pkg
		if p == nil && q.Origin() != nil {
			p = q.Origin().Pkg
		}
	}
	if p == nil || p.Pkg == nil {
		return false
	}
	if pg.isRepo(p) {
		return true
	}
	switch p.Pkg.Path() {
	case "slices", "cmp", "math/bits":
		return true
	}
	return false
}

func (pg *Prog) constant(name string) constant.Value {
	for _, p := range []string{"vibe-lsm/pkg/col", "vibe-lsm/pkg/multicol"} {
		if pk := pg.pkgs[p]; pk != nil {
			if o, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return o.Val()
			}
		}
	}
	return nil
}

func (pg *Prog) typeByName(n string) types.Type {
	ptr := false
	if strings.HasPrefix(n, "*") {
		ptr = true
		n = n[1:]
	}
	i := strings.IndexByte(n, '.')
	if i < 0 {
		return nil
	}
	for path, p := range pg.pkgs {
		if p.Pkg.Name() == n[:i] && (strings.HasPrefix(path, modPath) || !strings.Contains(path, "/") || strings.HasSuffix(path, "sroar")) {
			if o, ok := p.Pkg.Scope().Lookup(n[i+1:]).(*types.TypeName); ok {
				if ptr {
					return types.NewPointer(o.Type())
				}
				return o.Type()
			}
		}
	}
	return nil
}
