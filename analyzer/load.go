package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program and its SSA form, rebuilt from the source
// tree of the repository on every run.
type Prog struct {
	Root  string
	Fset  *token.FileSet
	Pkg   *packages.Package // the parser package (directory ast)
	SSA   *ssa.Program
	AST   *ssa.Package
	All   []*packages.Package
	Funcs map[*ssa.Function]bool // functions with bodies in the repository's packages

	lexOnce   sync.Once
	lexFields map[int]bool

	sizeOnce   sync.Once
	sizeConsts []int
	textConsts []int
}

func load(root string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root,
		Env: env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Root: root, All: pkgs}
	var target *packages.Package
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("type-check: %v", e)
		}
		if strings.HasSuffix(pk.PkgPath, "/ast") {
			target = pk
		}
	}
	if target == nil {
		return nil, fmt.Errorf("parser package (directory ast) not found under %s", root)
	}
	p.Pkg = target
	p.Fset = target.Fset
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, pk := range pkgs {
		if pk == target {
			p.AST = spkgs[i]
		}
	}
	p.Funcs = map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inRepo(fn) && len(fn.Blocks) > 0 {
			p.Funcs[fn] = true
		}
	}
	return p, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg.Pkg
		}
		if o := fn.Origin(); o != nil && o != fn {
			fn = o
			continue
		}
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return fn.Object().Pkg()
		}
		fn = fn.Parent()
	}
	return nil
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return false
	}
	for _, q := range p.All {
		if q.Types == pk {
			return true
		}
	}
	return false
}

func (p *Prog) inAST(fn *ssa.Function) bool { return fnPkg(fn) == p.Pkg.Types }

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	// //line directives point into grammar.y; report those as they help most
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	rel = strings.ReplaceAll(rel, ".\\", "")
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Prog) posRaw(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.PositionFor(pos, false)
	rel, err := filepath.Rel(p.Root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Prog) obj(name string) types.Object { return p.Pkg.Types.Scope().Lookup(name) }

func (p *Prog) named(name string) *types.Named {
	if o, ok := p.obj(name).(*types.TypeName); ok {
		if n, ok := o.Type().(*types.Named); ok {
			return n
		}
	}
	return nil
}

func (p *Prog) method(typ, name string) *ssa.Function {
	n := p.named(typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(n), n} {
		if sel := types.NewMethodSet(t).Lookup(p.Pkg.Types, name); sel != nil {
			return p.SSA.MethodValue(sel)
		}
	}
	return nil
}

func (p *Prog) fn(name string) *ssa.Function { return p.AST.Func(name) }

// fileOf returns the syntax file with that base name.
func fileOf(pk *packages.Package, base string) *ast.File {
	for _, f := range pk.Syntax {
		if filepath.Base(pk.Fset.PositionFor(f.Package, false).Filename) == base {
			return f
		}
	}
	return nil
}
