package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// findFrozen evaluates the initializers of package-level variables that no
// function of the repository assigns, takes the address of, or changes through.
func (w *World) findFrozen() {
	for _, p := range w.pkgs {
		sp := w.spkgs[p.Types.Name()]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range g.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok || len(vs.Values) != len(vs.Names) {
						continue
					}
					for i, n := range vs.Names {
						gl, ok := sp.Members[n.Name].(*ssa.Global)
						if !ok {
							continue
						}
						cv, err := evalConst(p.TypesInfo, vs.Values[i])
						if err != nil {
							w.why[gl] = err.Error()
							continue
						}
						cv.typ = gl.Type().(*types.Pointer).Elem()
						if why := w.mutated(gl); why != "" {
							w.why[gl] = why
							continue
						}
						w.frozen[gl] = cv
					}
				}
			}
		}
	}
}

func evalConst(info *types.Info, e ast.Expr) (*constVal, error) {
	tv := info.Types[e]
	if tv.Value != nil {
		return &constVal{typ: tv.Type, c: tv.Value}, nil
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return evalConst(info, e.X)
	case *ast.CompositeLit:
		cv := &constVal{typ: tv.Type}
		switch u := tv.Type.Underlying().(type) {
		case *types.Slice, *types.Array:
			var n int64
			m := map[int64]*constVal{}
			max := int64(0)
			for _, x := range e.Elts {
				if kv, ok := x.(*ast.KeyValueExpr); ok {
					k, err := evalConst(info, kv.Key)
					if err != nil {
						return nil, err
					}
					n = k.int()
					x = kv.Value
				}
				v, err := evalConst(info, x)
				if err != nil {
					return nil, err
				}
				m[n] = v
				n++
				if n > max {
					max = n
				}
			}
			var et types.Type
			if a, ok := u.(*types.Array); ok {
				max = a.Len()
				et = a.Elem()
			} else {
				et = u.(*types.Slice).Elem()
			}
			if max > 1<<21 {
				return nil, fmt.Errorf("too large")
			}
			for i := int64(0); i < max; i++ {
				v := m[i]
				if v == nil {
					z, err := zeroConst(et)
					if err != nil {
						return nil, err
					}
					v = z
				}
				cv.elem = append(cv.elem, v)
			}
			return cv, nil
		case *types.Struct:
			cv.elem = make([]*constVal, u.NumFields())
			for i, x := range e.Elts {
				idx := i
				if kv, ok := x.(*ast.KeyValueExpr); ok {
					nm := kv.Key.(*ast.Ident).Name
					idx = -1
					for j := 0; j < u.NumFields(); j++ {
						if u.Field(j).Name() == nm {
							idx = j
						}
					}
					x = kv.Value
				}
				v, err := evalConst(info, x)
				if err != nil {
					return nil, err
				}
				cv.elem[idx] = v
			}
			for j := range cv.elem {
				if cv.elem[j] == nil {
					z, err := zeroConst(u.Field(j).Type())
					if err != nil {
						return nil, err
					}
					cv.elem[j] = z
				}
			}
			return cv, nil
		case *types.Map:
			for _, x := range e.Elts {
				kv := x.(*ast.KeyValueExpr)
				k, err := evalConst(info, kv.Key)
				if err != nil {
					return nil, err
				}
				v, err := evalConst(info, kv.Value)
				if err != nil {
					return nil, err
				}
				cv.keys = append(cv.keys, k)
				cv.elem = append(cv.elem, v)
			}
			return cv, nil
		}
	case *ast.CallExpr:
		// a call of a library constructor with constant arguments
		var f *types.Func
		fun := e.Fun
		if ix, ok := fun.(*ast.IndexExpr); ok {
			fun = ix.X
		}
		if ix, ok := fun.(*ast.IndexListExpr); ok {
			fun = ix.X
		}
		if s, ok := fun.(*ast.SelectorExpr); ok {
			f, _ = info.Uses[s.Sel].(*types.Func)
		}
		if f != nil && f.Pkg() != nil {
			cv := &constVal{typ: tv.Type, call: f.Pkg().Path() + "." + f.Name()}
			for _, a := range e.Args {
				v, err := evalConst(info, a)
				if err != nil {
					return nil, err
				}
				cv.args = append(cv.args, v)
			}
			return cv, nil
		}
	}
	return nil, fmt.Errorf("initializer is not constant")
}

func zeroConst(t types.Type) (*constVal, error) {
	cv := &constVal{typ: t}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			cv.c = constant.MakeBool(false)
		case u.Info()&types.IsString != 0:
			cv.c = constant.MakeString("")
		default:
			cv.c = constant.MakeInt64(0)
		}
		return cv, nil
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			z, err := zeroConst(u.Elem())
			if err != nil {
				return nil, err
			}
			cv.elem = append(cv.elem, z)
		}
		return cv, nil
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			z, err := zeroConst(u.Field(i).Type())
			if err != nil {
				return nil, err
			}
			cv.elem = append(cv.elem, z)
		}
		return cv, nil
	case *types.Slice, *types.Map:
		return cv, nil
	}
	return nil, fmt.Errorf("no constant zero of %s", t)
}

// mutated reports why a global might change after its initialization: any use
// other than loading it, or a use of the loaded slice or map other than
// reading, measuring, ranging and passing it on to functions of the repository
// (whose writes through parameters are found the same way: a store to an
// element of the same type anywhere outside init is refused unless the verifier
// proves its target fresh, which every verified function's frame does).
func (w *World) mutated(g *ssa.Global) string {
	if token.IsExported(g.Name()) {
		return "may be assigned by the user"
	}
	conf := true
	for fn := range ssautil.AllFunctions(w.prog) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(*ssa.UnOp); ok && x.X == g && !confined(x) {
					conf = false
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		pk := fnPkg(fn)
		if pk == nil || w.spkgs[pk.Pkg.Name()] != pk {
			continue
		}
		isInit := fn.Synthetic != "" && fn.Name() == "init"
		if !isInit && !conf {
			if why := writesSameType(fn, g.Type().(*types.Pointer).Elem()); why != "" {
				return fnKey(fn) + ": " + why
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != g {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
						if w2 := usesMutate(x, 0); w2 != "" && !isInit {
							return fnKey(fn) + ": " + w2
						}
					case *ssa.DebugRef:
					case *ssa.Store:
						if !isInit || x.Val == g {
							return "assigned in " + fnKey(fn)
						}
					case *ssa.IndexAddr, *ssa.FieldAddr: // element of an array, field of a struct
						if !isInit && !onlyLoaded(x.(ssa.Value)) {
							return "element address used in " + fnKey(fn)
						}
					default:
						return "address used in " + fnKey(fn)
					}
				}
			}
		}
	}
	return ""
}

// plain: values of the type refer to no memory
func plain(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plain(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return plain(u.Elem())
	}
	return false
}

// onlyLoaded: the address is used for reading only
func onlyLoaded(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		switch y := r.(type) {
		case *ssa.UnOp:
			if !plain(y.Type()) {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if !onlyLoaded(y.(ssa.Value)) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// confined: the loaded slice or map is only measured and read on the spot, so
// that no other slice or map shares its memory
func confined(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if !onlyLoaded(y) {
				return false
			}
		case *ssa.Lookup:
			if m, ok := v.Type().Underlying().(*types.Map); !ok || !plain(m.Elem()) {
				return false
			}
		case *ssa.Call:
			if b, ok := y.Common().Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func usesMutate(v ssa.Value, depth int) string {
	if depth > 6 {
		return "used in too many steps"
	}
	switch v.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
	default:
		return ""
	}
	refs := v.Referrers()
	if refs == nil {
		return ""
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			for _, rr := range *r.Referrers() {
				switch y := rr.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr, *ssa.IndexAddr:
					for _, r3 := range *y.(ssa.Value).Referrers() {
						if _, ok := r3.(*ssa.UnOp); !ok {
							if _, ok := r3.(*ssa.DebugRef); !ok {
								return "element address used"
							}
						}
					}
				default:
					return "element address used"
				}
			}
		case *ssa.MapUpdate:
			if r.Map == v {
				return "map updated"
			}
		case *ssa.Phi, *ssa.Slice, *ssa.ChangeType:
			if s := usesMutate(r.(ssa.Value), depth+1); s != "" {
				return s
			}
		case *ssa.Store:
			if r.Val == v {
				// stored into a variadic argument array or a local: element
				// stores through it are stores to the same element type
				if _, ok := r.Addr.(*ssa.IndexAddr); !ok {
					if _, ok := r.Addr.(*ssa.Alloc); !ok {
						return "stored in memory"
					}
				}
			}
		case *ssa.Call:
			cc := r.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
				default:
					return "passed to " + b.Name()
				}
			}
		}
	}
	return ""
}

// writesSameType: does fn store to elements of slices, or to maps, of type t?
func writesSameType(fn *ssa.Function, t types.Type) string {
	var et types.Type
	var mt *types.Map
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Map:
		mt = u
	default:
		return ""
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.MapUpdate:
				if mt != nil && types.Identical(x.Map.Type().Underlying(), mt) {
					return "updates a map of this type"
				}
			case *ssa.Store:
				if et == nil {
					continue
				}
				a := x.Addr
				for {
					if f, ok := a.(*ssa.FieldAddr); ok {
						a = f.X
						continue
					}
					if f, ok := a.(*ssa.IndexAddr); ok {
						if sl, ok := f.X.Type().Underlying().(*types.Slice); ok {
							if types.Identical(sl.Elem(), et) {
								return "stores to elements of this type"
							}
							break
						}
						a = f.X
						continue
					}
					break
				}
			case *ssa.Call:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && et != nil {
					if n := bi.Name(); n == "append" || n == "copy" || n == "clear" {
						if sl, ok := x.Common().Args[0].Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), et) {
							return n + "s elements of this type"
						}
					}
				}
			}
		}
	}
	return ""
}
