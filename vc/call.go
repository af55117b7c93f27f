package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxInline = 8

type cont func(st *State, fr *Frame, res Val)

// call executes a call and continues with its result.
func (v *Verifier) call(st *State, fr *Frame, ins ssa.Instruction, cc *ssa.CallCommon, k cont) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		v.builtin(st, fr, ins, b.Name(), cc, k)
		return
	}
	var args []Val
	if cc.IsInvoke() {
		recv := v.val(st, fr, cc.Value)
		args = append(args, recv)
		for _, a := range cc.Args {
			args = append(args, v.val(st, fr, a))
		}
		v.safe(st, fr, ins, "nil-interface", tb.Not(isNil(recv)))
		key := "ext." + ifaceKey(cc.Value.Type()) + "." + cc.Method.Name()
		v.extCall(st, fr, ins, key, cc.Signature(), args, k)
		return
	}
	for _, a := range cc.Args {
		args = append(args, v.val(st, fr, a))
	}
	if fn := cc.StaticCallee(); fn != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			v.callFn(st, fr, ins, fn, v.val(st, fr, mc).clo.free, args, k)
			return
		}
		v.callFn(st, fr, ins, fn, nil, args, k)
		return
	}
	fv := v.val(st, fr, cc.Value)
	if fv.clo != nil {
		v.callFn(st, fr, ins, fv.clo.fn, fv.clo.free, args, k)
		return
	}
	v.safe(st, fr, ins, "nil-func", tb.Not(isNil(fv)))
	v.extCall(st, fr, ins, "ext."+sigKey(cc.Signature()), cc.Signature(), append([]Val{fv}, args...), k)
}

// sigKey names a function type: "fn_string_uint16_string".
func sigKey(s *types.Signature) string {
	p := []string{"fn"}
	for i := 0; i < s.Params().Len(); i++ {
		p = append(p, typeKey(s.Params().At(i).Type()))
	}
	for i := 0; i < s.Results().Len(); i++ {
		p = append(p, typeKey(s.Results().At(i).Type()))
	}
	return strings.Join(p, "_")
}

func ifaceKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return typeKey(t)
}

func inRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if withLibs && pk != nil && pk.Pkg.Path() == "strings" && fn.Signature.Recv() != nil {
		return false // strings.Builder
	}
	return pk != nil && world.spkgs[pk.Pkg.Name()] == pk
}

func (v *Verifier) callFn(st *State, fr *Frame, ins ssa.Instruction, fn *ssa.Function, free, args []Val, k cont) {
	key := fnKey(fn)
	if !inRepo(fn) || fn.Blocks == nil {
		ek := extKey(fn)
		v.extCall(st, fr, ins, ek, fn.Signature, args, k)
		return
	}
	if con := contractFor(fn); con != nil && !v.inline[key] && len(free) == 0 {
		v.used[key] = true
		r := v.contractCall(st, fr, ins, con, key, fn.Signature, args)
		k(st, fr, r)
		return
	}
	v.inlineCall(st, fr, ins, fn, free, args, k)
}

// contractFor: the contract of a function, if it fits its signature.
func contractFor(fn *ssa.Function) *Contract {
	con := spec.contracts[fnKey(fn)]
	if con == nil {
		return nil
	}
	if contractMisfit(fn, con) != "" {
		return nil
	}
	return con
}

func contractMisfit(fn *ssa.Function, con *Contract) string {
	if len(con.params) != len(fn.Params) {
		return fmt.Sprintf("contract has %d parameters, function %d", len(con.params), len(fn.Params))
	}
	if len(con.results) != fn.Signature.Results().Len() {
		return fmt.Sprintf("contract has %d results, function %d", len(con.results), fn.Signature.Results().Len())
	}
	return ""
}

func (v *Verifier) inlineCall(st *State, fr *Frame, ins ssa.Instruction, fn *ssa.Function, free, args []Val, k cont) {
	d := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			unsupported("recursive call of %s without contract", fnKey(fn))
		}
		d++
	}
	if d > maxInline {
		unsupported("calls nested too deeply at %s", fnKey(fn))
	}
	v.inlined[fnKey(fn)] = true
	nf := &Frame{fn: fn, regs: map[ssa.Value]Val{}, names: map[string]Named{}, unroll: map[*ssa.BasicBlock]int{}, parent: fr, info: infoOf(fn)}
	for i, p := range fn.Params {
		a := args[i]
		a.t = p.Type()
		nf.regs[p] = a
		nf.names[p.Name()] = Named{val: a, src: p}
	}
	for i, p := range fn.FreeVars {
		nf.regs[p] = free[i]
		if free[i].ptr != nil {
			nf.names[p.Name()] = Named{cell: free[i].ptr}
		} else {
			nf.names[p.Name()] = Named{val: free[i], src: p}
		}
	}
	nf.ret = func(st *State, _ *Frame, res []Val) {
		k(st, fr.clone(), tupleOf(fn.Signature, res))
	}
	v.run(st, nf, fn.Blocks[0], 0)
}

func tupleOf(sig *types.Signature, res []Val) Val {
	if sig.Results().Len() == 1 {
		return res[0]
	}
	return Val{t: sig.Results(), tup: res}
}

// contractEnv binds a contract's parameters and ghost names.
func (v *Verifier) contractEnv(con *Contract, params map[string]Val, st, old *State) *Env {
	env := &Env{pkg: con.pkg, vars: map[string]Val{}, st: st, old: old}
	for n, x := range params {
		env.vars[n] = x
	}
	for _, l := range con.lets {
		oe := *env
		if old != nil {
			oe.st = old
		}
		env.vars[l.name] = oe.eval(l.e)
	}
	return env
}

func bindParams(con *Contract, args []Val) map[string]Val {
	m := map[string]Val{}
	for i, n := range con.params {
		m[n] = args[i]
	}
	return m
}

// plain gives pointer-to-object arguments as references.
func (v *Verifier) plain(st *State, a Val) Val {
	if a.ptr != nil {
		if a.ptr.kind == "obj" && a.ptr.off == 0 {
			return mkVal(a.t, a.ptr.ref)
		}
		unsupported("address of a variable passed to a function with contract")
	}
	if a.tup != nil || a.iter != nil {
		unsupported("argument")
	}
	return a
}

// contractCall replaces a call by the callee's contract.
func (v *Verifier) contractCall(st *State, fr *Frame, ins ssa.Instruction, con *Contract, key string, sig *types.Signature, args []Val) Val {
	for i := range args {
		args[i] = v.plain(st, args[i])
	}
	params := bindParams(con, args)
	env := v.contractEnv(con, params, st, st)
	site := ""
	var pos = ins.Pos()
	if fr != nil {
		site = fr.info.insName(ins)
		if fr.fn != v.fn {
			site = fnKey(fr.fn) + "/" + site
		}
	}
	for i, r := range con.requires {
		g := env.evalBool(r.e)
		v.check(st, "precondition", fmt.Sprintf("pre:%s#%d@%s", key, i+1, site), r.tags, r.src, pos, g)
	}
	old := st.clone()
	if con.panics != nil && !con.trusted {
		unsupported("call of %s, which may panic by contract", key)
	}
	// effects
	var ents []modEntry // all evaluated before the call
	for _, m := range con.modifies {
		ents = append(ents, modEntries(env, m.e)...)
	}
	for _, e := range ents {
		v.noteRef(st, fr, ins, e.heap, e.ref)
		h := st.get(e.heap, heapSorts[e.heap])
		if e.ref == nil {
			st.heap[e.heap] = freshHeap(e.heap)
			continue
		}
		_, vs := heapSorts[e.heap].split()
		st.heap[e.heap] = tb.Store(h, e.ref, freshTyped(e.heap, vs))
	}
	if !con.pure {
		st.noteAlloc()
		a := freshVar("alloc", SInt)
		st.assume(tb.Le(st.alloc, a))
		st.alloc = a
	}
	var res []Val
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		rv := Val{t: rs.At(i).Type()}
		nm := fmt.Sprintf("%s.r%d", shortKey(key), i)
		for _, lf := range layout(rv.t) {
			rv.l = append(rv.l, freshVar(nm, lf.sort))
		}
		st.assume(typeFacts(rv))
		st.assume(st.refFacts(rv))
		res = append(res, rv)
	}
	env2 := v.contractEnv(con, params, st, old)
	for i, n := range con.results {
		env2.vars[n] = res[i]
	}
	for _, w := range con.witness {
		_, so := specType(con.pkg, w.typ)
		env2.vars[w.name] = mkVal(types.Typ[types.Int], freshVar("wit."+w.name, so))
	}
	for _, e := range con.ensures {
		st.assume(env2.evalBool(e.e))
	}
	return tupleOf(sig, res)
}

func shortKey(k string) string {
	if i := strings.LastIndexByte(k, '.'); i >= 0 {
		return k[i+1:]
	}
	return k
}

// modEntries evaluates a modifies clause.
func modEntries(env *Env, e ast.Expr) (out []modEntry) {
	switch x := e.(type) {
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		if !ok {
			break
		}
		if aid, ok := x.Args[0].(*ast.Ident); ok {
			if _, known := env.ident(aid.Name); !known {
				return nil
			}
		}
		if id.Name == "any" { // any(p.f): field f of any object of the type
			for _, m := range modEntries(env, x.Args[0]) {
				out = append(out, modEntry{m.heap, nil})
			}
			return
		}
		v := env.eval(x.Args[0])
		switch id.Name {
		case "elems":
			sl, ok := v.t.Underlying().(*types.Slice)
			if !ok {
				sErr("modifies elems of a non-slice")
			}
			for i := range layout(sl.Elem()) {
				n, so := elemHeap(sl.Elem(), i)
				env.st.get(n, so)
				out = append(out, modEntry{n, v.l[0]})
			}
			return
		case "maps", "lru":
			if m, ok := v.t.Underlying().(*types.Map); ok {
				n, so := mapDomHeap(m)
				env.st.get(n, so)
				out = append(out, modEntry{n, v.l[0]})
				for i := range layout(m.Elem()) {
					n, so := mapValHeap(m, i)
					env.st.get(n, so)
					out = append(out, modEntry{n, v.l[0]})
				}
				return
			}
			for _, d := range []bool{true, false} {
				n, so := lruHeap(v.t, d)
				env.st.get(n, so)
				out = append(out, modEntry{n, v.l[0]})
			}
			return
		case "fields": // all fields of an object
			pt := v.t.Underlying().(*types.Pointer)
			for i := range layout(pt.Elem()) {
				n, so := objHeap(pt.Elem(), i)
				env.st.get(n, so)
				out = append(out, modEntry{n, v.l[0]})
			}
			return
		case "written":
			env.st.get("GH:out", ArrSort(SIfc, SStr))
			return []modEntry{{"GH:out", v.one()}}
		}
	case *ast.SelectorExpr:
		// p.f: one field of an object
		v := env.eval(x.X)
		if v.t == nil {
			break
		}
		name := x.Sel.Name
		pt, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		st := pt.Elem().Underlying().(*types.Struct)
		for k := 0; k < 2; k++ {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					off, n := fieldOff(st, i)
					for j := 0; j < n; j++ {
						h, so := objHeap(pt.Elem(), off+j)
						env.st.get(h, so)
						out = append(out, modEntry{h, v.l[0]})
					}
					return
				}
			}
			name = fieldByRole(v.t, name)
		}
	case *ast.Ident:
		tp := world.tpkgs[env.pkg]
		o := tp.Scope().Lookup(x.Name)
		if o == nil {
			return nil
		}
		for i := range layout(o.Type()) {
			n, so := globHeap(env.pkg, x.Name, o.Type(), i)
			env.st.get(n, so)
			out = append(out, modEntry{n, nil})
		}
		return
	}
	sErr("modifies %s", exprStr(e))
	return nil
}

func (v *Verifier) lenOf(x Val, t types.Type) Val {
	if x.t != nil {
		switch u := x.t.Underlying().(type) {
		case *types.Slice:
			return mkVal(t, x.l[2])
		case *types.Basic:
			return mkVal(t, Slen(x.one()))
		case *types.Array:
			return mkVal(t, tb.Int(u.Len()))
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return mkVal(t, tb.Int(a.Len()))
			}
		case *types.Map:
			if cm := frozenMapOf(x); cm != nil {
				return mkVal(t, tb.Int(int64(len(cm.keys))))
			}
			n := freshVar("maplen", SInt)
			return mkVal(t, n)
		}
	}
	unsupported("len of %s", x.t)
	return Val{}
}

func (v *Verifier) builtin(st *State, fr *Frame, ins ssa.Instruction, name string, cc *ssa.CallCommon, k cont) {
	rt := cc.Signature().Results()
	var t types.Type
	if c, ok := ins.(*ssa.Call); ok {
		t = c.Type()
	}
	_ = rt
	switch name {
	case "len":
		r := v.lenOf(v.val(st, fr, cc.Args[0]), t)
		st.assume(tb.Le(tb.Int(0), r.one()))
		k(st, fr, r)
	case "cap":
		x := v.val(st, fr, cc.Args[0])
		if len(x.l) != 4 {
			unsupported("cap")
		}
		k(st, fr, mkVal(t, x.l[3]))
	case "min", "max":
		r := v.val(st, fr, cc.Args[0]).one()
		for _, a := range cc.Args[1:] {
			x := v.val(st, fr, a).one()
			if x.sort != SInt {
				unsupported("min/max of %s", t)
			}
			if name == "min" {
				r = tb.Ite(tb.Le(x, r), x, r)
			} else {
				r = tb.Ite(tb.Le(r, x), x, r)
			}
		}
		k(st, fr, mkVal(t, r))
	case "append":
		v.appendCall(st, fr, ins, cc, t, k)
	case "copy":
		v.copyCall(st, fr, ins, cc, t, k)
	case "delete":
		mv := v.val(st, fr, cc.Args[0])
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		key := v.val(st, fr, cc.Args[1]).one()
		nm, so := mapDomHeap(mt)
		h := st.get(nm, so)
		v.noteRef(st, fr, ins, nm, mv.one())
		st.heap[nm] = tb.Store(h, mv.one(), tb.Store(tb.Select(h, mv.one()), key, tb.Bool(false)))
		for i, lf := range layout(mt.Elem()) {
			nm, so := mapValHeap(mt, i)
			h := st.get(nm, so)
			v.noteRef(st, fr, ins, nm, mv.one())
			st.heap[nm] = tb.Store(h, mv.one(), tb.Store(tb.Select(h, mv.one()), key, sortZero(lf.sort)))
		}
		k(st, fr, Val{})
	default:
		unsupported("builtin %s", name)
	}
}

// appendCall: in place if the capacity suffices, else into new memory. Elements
// beyond a slice's length are never visible (slicing beyond it is refused), so
// the new memory keeps the old offset and content.
func (v *Verifier) appendCall(st *State, fr *Frame, ins ssa.Instruction, cc *ssa.CallCommon, t types.Type, k cont) {
	s := v.val(st, fr, cc.Args[0])
	et := t.Underlying().(*types.Slice).Elem()
	var n *T
	src := v.val(st, fr, cc.Args[1])
	isStr := len(src.l) == 1 && src.l[0].sort == SStr
	if isStr {
		n = Slen(src.one())
	} else {
		n = src.l[2]
	}
	if n.isInt() && n.ival == 0 {
		k(st, fr, s)
		return
	}
	newLen := tb.Add(s.l[2], n)
	content := func(st *State, base *T) []*T {
		var out []*T
		for i := range layout(et) {
			nm, so := elemHeap(et, i)
			h := st.get(nm, so)
			cur := tb.Select(h, base)
			if n.isInt() && n.ival <= 4 {
				for j := int64(0); j < n.ival; j++ {
					var x *T
					if isStr {
						x = Sat(src.one(), tb.Int(j))
					} else {
						x = tb.Select(tb.Select(h, src.l[0]), tb.AddC(src.l[1], j))
					}
					cur = tb.Store(cur, tb.Add(s.l[1], s.l[2], tb.Int(j)), x)
				}
				out = append(out, cur)
				continue
			}
			_, as := so.split()
			na := freshVar("app", as)
			b := tb.BVar("ai", SInt)
			at := tb.Add(s.l[1], s.l[2])
			rel := tb.Sub(b, at)
			var x *T
			if isStr {
				x = Sat(src.one(), rel)
			} else {
				x = tb.Select(tb.Select(h, src.l[0]), tb.Add(src.l[1], rel))
			}
			in := tb.And(tb.Le(at, b), tb.Lt(b, tb.Add(at, n)))
			st.assume(tb.Forall([]*T{b}, [][]*T{{tb.Select(na, b)}}, tb.mk("=", SBool, tb.Select(na, b), tb.Ite(in, x, tb.Select(cur, b)))))
			out = append(out, na)
		}
		return out
	}
	fits := tb.Le(newLen, s.l[3])
	inPlace := func(st *State, fr *Frame) {
		c := content(st, s.l[0])
		for i := range layout(et) {
			nm, so := elemHeap(et, i)
			h := st.get(nm, so)
			v.noteRef(st, fr, ins, nm, s.l[0])
			st.heap[nm] = tb.Store(h, s.l[0], c[i])
		}
		k(st, fr, mkVal(t, s.l[0], s.l[1], newLen, s.l[3]))
	}
	grow := func(st *State, fr *Frame) {
		c := content(st, s.l[0])
		base := v.newRef(st)
		st.assume(tb.Lt(tb.Int(0), base))
		for i := range layout(et) {
			nm, so := elemHeap(et, i)
			h := st.get(nm, so)
			st.noteStore(v, nm, base, nil)
			st.heap[nm] = tb.Store(h, base, c[i])
		}
		cp := freshVar("cap", SInt)
		st.assume(tb.Le(newLen, cp))
		k(st, fr, mkVal(t, base, s.l[1], newLen, cp))
	}
	if fits.isTrue() {
		inPlace(st, fr)
		return
	}
	if fits.isFalse() {
		grow(st, fr)
		return
	}
	s1, f1 := st.clone(), fr.clone()
	s1.assume(fits)
	st.assume(tb.Not(fits))
	ok1 := v.feasible(s1)
	if ok1 {
		inPlace(s1, f1)
	}
	if !ok1 || v.feasible(st) {
		grow(st, fr)
	}
}

func (v *Verifier) copyCall(st *State, fr *Frame, ins ssa.Instruction, cc *ssa.CallCommon, t types.Type, k cont) {
	d, s := v.val(st, fr, cc.Args[0]), v.val(st, fr, cc.Args[1])
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	var sl *T
	isStr := len(s.l) == 1
	if isStr {
		sl = Slen(s.one())
	} else {
		sl = s.l[2]
	}
	n := tb.Ite(tb.Le(sl, d.l[2]), sl, d.l[2])
	for i := range layout(et) {
		nm, so := elemHeap(et, i)
		h := st.get(nm, so)
		_, as := so.split()
		na := freshVar("cpy", as)
		b := tb.BVar("ci", SInt)
		rel := tb.Sub(b, d.l[1])
		var x *T
		if isStr {
			x = Sat(s.one(), rel)
		} else {
			x = tb.Select(tb.Select(h, s.l[0]), tb.Add(s.l[1], rel))
		}
		cur := tb.Select(h, d.l[0])
		in := tb.And(tb.Le(d.l[1], b), tb.Lt(b, tb.Add(d.l[1], n)))
		st.assume(tb.Forall([]*T{b}, [][]*T{{tb.Select(na, b)}}, tb.mk("=", SBool, tb.Select(na, b), tb.Ite(in, x, tb.Select(cur, b)))))
		v.noteRef(st, fr, ins, nm, d.l[0])
		st.heap[nm] = tb.Store(h, d.l[0], na)
	}
	k(st, fr, mkVal(t, n))
}
