package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program: /repo's current working tree.
type World struct {
	repo  string
	fset  *token.FileSet
	pkgs  []*packages.Package
	prog  *ssa.Program
	spkgs map[string]*ssa.Package // by package name
	tpkgs map[string]*types.Package
	funcs map[string]*ssa.Function // "pkg.Name" or "pkg.(*T).Name"
	order []string

	frozen map[*ssa.Global]*constVal // globals with a known constant value
	why    map[*ssa.Global]string    // why a global is not constant
}

var (
	world    *World
	withLibs = os.Getenv("VC_LIBS") != ""
)

func load(repo string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pats := []string{".", "./runewidth", "./runewidth/uniseg"}
	if withLibs {
		// library functions whose assumed contracts are proved as well
		pats = append(pats, "strings", "internal/stringslite", "unicode/utf8", "github.com/ilius/go-lru", "github.com/ilius/go-lru/internal")
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	w := &World{repo: repo, pkgs: pkgs, spkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{},
		funcs: map[string]*ssa.Function{}, frozen: map[*ssa.Global]*constVal{}, why: map[*ssa.Global]string{}}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w.prog = prog
	w.fset = prog.Fset
	for i, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		w.spkgs[p.Pkg.Name()] = p
		w.tpkgs[p.Pkg.Name()] = p.Pkg
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		pk := fnPkg(fn)
		if pk == nil || w.spkgs[pk.Pkg.Name()] != pk {
			continue
		}
		if isGeneric(fn) {
			continue
		}
		if fn.Synthetic != "" && fn.Origin() == nil && !strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		w.funcs[fnKey(fn)] = fn
	}
	for k := range w.funcs {
		w.order = append(w.order, k)
	}
	sort.Strings(w.order)
	w.findFrozen()
	return w, nil
}

// isGeneric: not fully instantiated
func isGeneric(fn *ssa.Function) bool {
	if len(fn.TypeArgs()) == 0 {
		return fn.TypeParams().Len() > 0
	}
	for _, t := range fn.TypeArgs() {
		if hasTypeParam(t) {
			return true
		}
	}
	return false
}

func hasTypeParam(t types.Type) bool {
	switch u := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Named:
		for i := 0; i < u.TypeArgs().Len(); i++ {
			if hasTypeParam(u.TypeArgs().At(i)) {
				return true
			}
		}
	}
	return false
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil {
		return o.Pkg
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	if fn.Synthetic != "" && fn.Object() != nil && fn.Object().Pkg() != nil && world != nil {
		// method values (t.f), method expressions (T.f), promoted methods
		if pk := world.spkgs[fn.Object().Pkg().Name()]; pk != nil && pk.Pkg == fn.Object().Pkg() {
			return pk
		}
	}
	return nil
}

// fnKey: "table.AlignmentLeft", "table.(*Table).Width", "uniseg.propertySearch[[3]int]"
func fnKey(fn *ssa.Function) string {
	pk := fnPkg(fn)
	pn := ""
	if pk != nil {
		pn = pk.Pkg.Name() + "."
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pn = fn.Object().Pkg().Name() + "."
	}
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pn + "(" + star + n.Obj().Name() + ")." + fn.Name()
		}
	}
	return pn + fn.Name()
}

// constVal is the concrete value of a package-level variable that is only
// assigned by its initializer.
type constVal struct {
	typ  types.Type
	c    constant.Value // basic
	elem []*constVal    // slice, array, struct
	keys []*constVal    // map
	call string         // regexp.MustCompile(lit) etc.: function name
	args []*constVal
}

func (c *constVal) int() int64 {
	v, ok := constant.Int64Val(constant.ToInt(c.c))
	if !ok {
		panic("not an int64 constant")
	}
	return v
}
