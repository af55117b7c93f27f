package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dBstr: the string made of a byte array's elements off..off+len.
func dBstr() *FnDecl {
	return tb.Decl("bstr", []Sort{ArrSort(SInt, SInt), SInt, SInt}, SStr)
}

func extKey(fn *ssa.Function) string {
	k := fnKey(fn)
	if i := strings.IndexByte(k, '['); i > 0 {
		k = k[:i]
	}
	return "ext." + k
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "utf8": true, "bits": true}

// extCall: a call of code outside the repository.
func (v *Verifier) extCall(st *State, fr *Frame, ins ssa.Instruction, key string, sig *types.Signature, args []Val, k cont) {
	v.exts[key] = true
	one := func(f func() Val) { k(st, fr, f()) }
	name := strings.TrimPrefix(key, "ext.")
	switch name {
	case "fmt.Fprintln", "fmt.Fprint":
		w := args[0].one()
		parts, ok := v.stringArgs(st, args[1])
		if !ok {
			unsupported("%s of values that are not strings", name)
		}
		txt := []*T{}
		for i, p := range parts {
			if i > 0 && name == "fmt.Fprintln" {
				txt = append(txt, strLit(" "))
			}
			txt = append(txt, p)
		}
		if name == "fmt.Fprintln" {
			txt = append(txt, strLit("\n"))
		}
		v.write(st, fr, ins, w, Scat(txt...), sig, k)
		return
	case "fmt.Fprintf":
		parts, ok := v.stringArgs(st, args[2])
		f, isLit := litOf(args[1].one())
		if !ok || !isLit {
			unsupported("Fprintf")
		}
		txt := v.sprintf(f, parts)
		v.write(st, fr, ins, args[0].one(), txt, sig, k)
		return
	case "fmt.Sprintf":
		parts, ok := v.stringArgs(st, args[1])
		f, isLit := litOf(args[0].one())
		if !ok || !isLit {
			one(func() Val { return mkVal(types.Typ[types.String], freshVar("sprintf", SStr)) })
			return
		}
		one(func() Val { return mkVal(types.Typ[types.String], v.sprintf(f, parts)) })
		return
	case "io.WriteString":
		v.write(st, fr, ins, args[0].one(), args[1].one(), sig, k)
		return
	case "io.Writer.Write":
		p := args[1]
		nm, so := elemHeap(types.Typ[types.Uint8], 0)
		txt := tb.App(dBstr(), tb.Select(st.get(nm, so), p.l[0]), p.l[1], p.l[2])
		v.write(st, fr, ins, args[0].one(), txt, sig, k)
		return
	}
	if name == "regexp.(*Regexp).FindAllStringIndex" || name == "regexp.(*Regexp).FindAllString" {
		k(st, fr, v.findAll(st, fr, ins, name, sig, args))
		return
	}
	if name == "sort.Search" {
		v.sortSearch(st, fr, ins, args, sig, k)
		return
	}
	if v.byteSearch(st, fr, ins, name, sig, args, k) {
		return
	}
	for _, b := range []string{"strings.(*Builder).", "bytes.(*Buffer)."} {
		if strings.HasPrefix(name, b) {
			v.builder(st, fr, ins, strings.TrimPrefix(name, b), sig, args, k)
			return
		}
	}
	if con := spec.contracts[key]; con != nil {
		if len(con.params) != len(args) || len(con.results) != sig.Results().Len() {
			unsupported("library contract %s does not fit", key)
		}
		r := v.contractCall(st, fr, ins, con, key, sig, args)
		k(st, fr, r)
		return
	}
	pk := name
	if i := strings.IndexByte(pk, '.'); i > 0 {
		pk = pk[:i]
	}
	if purePkgs[pk] && !strings.Contains(name, "(") {
		var as []*T
		var ss []Sort
		for _, a := range args {
			if len(a.l) != 1 || a.clo != nil || (a.l[0].sort != SInt && a.l[0].sort != SStr && a.l[0].sort != SBool) {
				unsupported("call of %s", name)
			}
			as = append(as, a.l[0])
			ss = append(ss, a.l[0].sort)
		}
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			ls := layout(t)
			if len(ls) != 1 {
				unsupported("call of %s", name)
			}
			d := tb.Decl(fmt.Sprintf("lib!%s!%d", name, i), ss, ls[0].sort)
			r := mkVal(t, tb.App(d, as...))
			st.assume(typeFacts(r))
			res = append(res, r)
		}
		k(st, fr, tupleOf(sig, res))
		return
	}
	unsupported("call of %s", name)
}

// stringArgs: the strings in a variadic []any of known length.
func (v *Verifier) stringArgs(st *State, s Val) ([]*T, bool) {
	if len(s.l) != 4 {
		return nil, false
	}
	if !s.l[2].isInt() {
		return nil, false
	}
	et := s.t.Underlying().(*types.Slice).Elem()
	nm, so := elemHeap(et, 0)
	var out []*T
	for i := int64(0); i < s.l[2].ival; i++ {
		e := tb.Select(tb.Select(st.get(nm, so), s.l[0]), tb.AddC(s.l[1], i))
		x, ok := unboxStr(e)
		if !ok {
			return nil, false
		}
		out = append(out, x)
	}
	return out, true
}

func (v *Verifier) sprintf(f string, parts []*T) *T {
	var out []*T
	n := 0
	for i := 0; i < len(f); i++ {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = append(out, strLit(f[i:]))
			break
		}
		if j > 0 {
			out = append(out, strLit(f[i:i+j]))
		}
		i += j + 1
		if i >= len(f) {
			unsupported("format %q", f)
		}
		switch f[i] {
		case '%':
			out = append(out, strLit("%"))
		case 's', 'v':
			if n >= len(parts) {
				unsupported("format %q", f)
			}
			out = append(out, parts[n])
			n++
		default:
			unsupported("format %q", f)
		}
	}
	if n != len(parts) {
		unsupported("format %q", f)
	}
	return Scat(out...)
}

// write: the writer takes the text, or fails.
func (v *Verifier) write(st *State, fr *Frame, ins ssa.Instruction, w, text *T, sig *types.Signature, k cont) {
	so := ArrSort(SIfc, SStr)
	h := st.get("GH:out", so)
	v.noteRef(st, fr, ins, "GH:out", w)
	s2, f2 := st.clone(), fr.clone()
	// success
	st.heap["GH:out"] = tb.Store(h, w, Scat(tb.Select(h, w), text))
	n := freshVar("n", SInt)
	k(st, fr, Val{t: sig.Results(), tup: []Val{mkVal(sig.Results().At(0).Type(), n), mkVal(sig.Results().At(1).Type(), sortZero(SIfc))}})
	// failure
	e := freshVar("werr", SIfc)
	s2.assume(tb.Not(tb.Eq(e, sortZero(SIfc))))
	s2.heap["GH:out"] = tb.Store(h, w, freshVar("partial", SStr))
	if !s2.werr {
		s2.werr = true
		s2.werrv = e
	}
	n2 := freshVar("n", SInt)
	k(s2, f2, Val{t: sig.Results(), tup: []Val{mkVal(sig.Results().At(0).Type(), n2), mkVal(sig.Results().At(1).Type(), e)}})
}

func (v *Verifier) builder(st *State, fr *Frame, ins ssa.Instruction, m string, sig *types.Signature, args []Val, k cont) {
	p := toPtr(args[0])
	cur := func() *T {
		return st.loadPtr(&Ptr{kind: p.kind, cell: p.cell, ref: p.ref, root: p.root, idx: p.idx, glob: p.glob, off: p.off, typ: p.typ}).one()
	}
	set := func(t *T) {
		v.storePtr(st, fr, ins, p, mkVal(p.typ, t))
	}
	nilErr := sortZero(SIfc)
	two := func(n *T) {
		k(st, fr, Val{t: sig.Results(), tup: []Val{mkVal(types.Typ[types.Int], n), mkVal(sig.Results().At(1).Type(), nilErr)}})
	}
	switch m {
	case "String":
		k(st, fr, mkVal(types.Typ[types.String], cur()))
	case "Len":
		k(st, fr, mkVal(types.Typ[types.Int], Slen(cur())))
	case "Grow":
		k(st, fr, Val{})
	case "Reset":
		set(strLit(""))
		k(st, fr, Val{})
	case "WriteString":
		set(Scat(cur(), args[1].one()))
		two(Slen(args[1].one()))
	case "WriteByte":
		b := args[1].one()
		var s *T
		if b.isInt() {
			s = strLit(string([]byte{byte(b.ival)}))
		} else {
			s = tb.App(tb.Decl("bytestr", []Sort{SInt}, SStr), b)
		}
		set(Scat(cur(), s))
		k(st, fr, mkVal(sig.Results().At(0).Type(), nilErr))
	case "WriteRune":
		b := args[1].one()
		var s *T
		if b.isInt() {
			s = strLit(string(rune(b.ival)))
		} else {
			s = tb.App(tb.Decl("runestr", []Sort{SInt}, SStr), b)
		}
		set(Scat(cur(), s))
		two(freshVar("n", SInt))
	default:
		unsupported("strings.Builder.%s", m)
	}
}

// byteSearch: searching for one ASCII character, by the position of a byte.
func (v *Verifier) byteSearch(st *State, fr *Frame, ins ssa.Instruction, name string, sig *types.Signature, args []Val, k cont) bool {
	var c *T
	switch name {
	case "strings.Index", "strings.Cut", "strings.Contains", "strings.Split", "strings.SplitN":
		l, ok := litOf(args[1].one())
		if !ok || len(l) != 1 {
			return false
		}
		c = tb.Int(int64(l[0]))
	case "strings.IndexRune", "strings.ContainsRune":
		c = args[1].one()
		if !c.isInt() || c.ival < 0 || c.ival > 127 {
			return false
		}
	default:
		return false
	}
	f := spec.fns["posOf"]
	if f == nil {
		return false
	}
	f.compile()
	s := args[0].one()
	n := Slen(s)
	p := tb.App(f.decl, s, c, tb.Int(0))
	found := tb.Lt(p, n)
	str := types.Typ[types.String]
	switch name {
	case "strings.Index", "strings.IndexRune":
		k(st, fr, intVal(tb.Ite(found, p, tb.Int(-1))))
	case "strings.Contains", "strings.ContainsRune":
		k(st, fr, boolVal(found))
	case "strings.Cut":
		a := tb.Ite(found, Ssub(s, tb.Int(0), p), s)
		b := tb.Ite(found, Ssub(s, tb.AddC(p, 1), n), strLit(""))
		k(st, fr, tupleOf(sig, []Val{mkVal(str, a), mkVal(str, b), boolVal(found)}))
	default:
		if name == "strings.SplitN" && !(args[2].one().isInt() && args[2].one().ival >= 2) {
			return false
		}
		// only the first part is known
		first := tb.Ite(found, Ssub(s, tb.Int(0), p), s)
		ln := freshVar("parts", SInt)
		st.assume(tb.Le(tb.Int(1), ln))
		st.assume(tb.Eq(found, tb.Lt(tb.Int(1), ln)))
		arr := tb.Store(freshVar("parts.e", ArrSort(SInt, SStr)), tb.Int(0), first)
		k(st, fr, v.newSlice(st, sig.Results().At(0).Type(), str, ln, ln, []*T{arr}))
	}
	return true
}

// sortSearch: the position r found by sort.Search(n, f) has f(r-1) false, f(r)
// true, where they are defined; f is called within 0..n-1 and has no effect.
func (v *Verifier) sortSearch(st *State, fr *Frame, ins ssa.Instruction, args []Val, sig *types.Signature, k cont) {
	f := args[1]
	if f.clo == nil {
		unsupported("sort.Search with an unknown function")
	}
	n := args[0].one()
	pure := func(a, b *State) {
		for h, t := range b.heap {
			if o, ok := a.heap[h]; ok && o != t {
				unsupported("sort.Search with a function that changes something")
			}
		}
		for c, x := range a.cells {
			y := b.cells[c]
			for i := range x.l {
				if y.l[i] != x.l[i] {
					unsupported("sort.Search with a function that changes something")
				}
			}
		}
	}
	call := func(s *State, i *T, k cont) {
		before := s.clone()
		v.callFn(s, fr, ins, f.clo.fn, f.clo.free, []Val{intVal(i)}, func(s *State, fr *Frame, r Val) {
			pure(before, s)
			k(s, fr, r)
		})
	}
	// anywhere it may be called
	any := st.clone()
	i := freshVar("probe", SInt)
	any.assume(tb.Le(tb.Int(0), i))
	any.assume(tb.Lt(i, n))
	any.loopsp = nil
	call(any, i, func(*State, *Frame, Val) {})
	r := freshVar("found", SInt)
	st.assume(tb.Le(tb.Int(0), r))
	st.assume(tb.Or(tb.Le(r, n), tb.Eq(r, tb.Int(0))))
	res := intVal(r)
	after := func(s *State, fr *Frame) {
		lo := s.clone()
		lo.assume(tb.Eq(r, tb.Int(0)))
		k(lo, fr.clone(), res)
		s.assume(tb.Lt(tb.Int(0), r))
		call(s, tb.AddC(r, -1), func(s *State, fr *Frame, x Val) {
			s.assume(tb.Not(x.one()))
			k(s, fr, res)
		})
	}
	in := st.clone()
	in.assume(tb.Lt(r, n))
	call(in, r, func(s *State, fr *Frame, x Val) {
		s.assume(x.one())
		after(s, fr)
	})
	st.assume(tb.Le(n, r))
	after(st, fr)
}

// findAll: all matches of the escape sequence pattern, which matches no empty
// string and does not look at what comes before: the matches found one after
// another, each from where the one before ended.
func (v *Verifier) findAll(st *State, fr *Frame, ins ssa.Instruction, name string, sig *types.Signature, args []Val) Val {
	re, s, lim := args[0].one(), args[1].one(), args[2].one()
	if !lim.isInt() || lim.ival >= 0 || v.dry == 0 && v.prove(st, tb.Eq(re, tb.Int(-1001)), v.quickMs, false).res != "unsat" {
		unsupported("call of %s", name)
	}
	fn := func(f string, a ...*T) *T { spec.fns[f].compile(); return tb.App(spec.fns[f].decl, a...) }
	rp := func(j *T) *T { return fn("rp", re, s, j) }
	suf := func(j *T) *T { return Ssub(s, rp(j), Slen(s)) }
	z := tb.Int(0)
	cnt := freshVar("matches", SInt)
	st.assume(tb.Le(z, cnt))
	st.assume(tb.And(tb.Le(z, rp(cnt)), tb.Le(rp(cnt), Slen(s)), tb.Not(fn("reFound", re, suf(cnt)))))
	j := tb.BVar("j", SInt)
	in := tb.And(tb.Le(z, j), tb.Lt(j, cnt))
	lo := tb.Add(rp(j), fn("reLo", re, suf(j)))
	hi := tb.Add(rp(j), fn("reHi", re, suf(j)))
	facts := tb.And(fn("reFound", re, suf(j)), tb.Le(z, rp(j)), tb.Le(rp(j), lo), tb.Lt(lo, hi), tb.Le(hi, Slen(s)), tb.mk("=", SBool, rp(tb.AddC(j, 1)), hi))
	rt := sig.Results().At(0).Type()
	et := rt.Underlying().(*types.Slice).Elem()
	if strings.HasSuffix(name, "FindAllString") {
		arr := freshVar("matches.e", ArrSort(SInt, SStr))
		st.assume(tb.Forall([]*T{j}, [][]*T{{tb.Select(arr, j)}}, tb.Imp(in, tb.And(facts, tb.mk("=", SBool, tb.Select(arr, j), Ssub(s, lo, hi))))))
		r := v.newSlice(st, rt, et, cnt, cnt, []*T{arr})
		r.l[0] = tb.Ite(tb.Eq(cnt, z), z, r.l[0])
		return r
	}
	rows := freshVar("matches.e", ArrSort(SInt, SInt))
	k := func(n int64) *T { return tb.ConstArr(ArrSort(SInt, SInt), tb.Int(n)) }
	a0 := st.alloc
	it := types.Typ[types.Int]
	nm, so := elemHeap(it, 0)
	h0 := st.get(nm, so)
	st.noteStore(v, nm, v.newRef(st), nil)
	h := freshHeap(nm)
	a1 := freshVar("alloc", SInt)
	st.assume(tb.Lt(st.alloc, a1))
	st.alloc = a1
	b := tb.BVar("hr", SInt)
	st.assume(tb.Forall([]*T{b}, [][]*T{{tb.Select(h, b)}}, tb.Imp(tb.Lt(b, a0), tb.mk("=", SBool, tb.Select(h, b), tb.Select(h0, b)))))
	row := tb.Select(rows, j)
	st.assume(tb.Forall([]*T{j}, [][]*T{{row}}, tb.Imp(in, tb.And(facts, tb.Le(a0, row), tb.Lt(tb.Int(0), row), tb.Lt(row, a1),
		tb.mk("=", SBool, tb.Select(tb.Select(h, row), z), lo), tb.mk("=", SBool, tb.Select(tb.Select(h, row), tb.Int(1)), hi)))))
	st.heap[nm] = h
	r := v.newSlice(st, rt, et, cnt, cnt, []*T{rows, k(0), k(2), k(2)})
	r.l[0] = tb.Ite(tb.Eq(cnt, z), z, r.l[0])
	return r
}
