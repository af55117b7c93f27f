package main

import (
	"fmt"
	"strings"
)

// The theory of strings: an uninterpreted sort S of byte strings with length,
// concatenation, substring, byte access, repetition, rune decoding. Its axioms
// are listed below; `vc axioms` tests every one of them on real Go strings.

func dSlen() *FnDecl { return tb.Decl("slen", []Sort{SStr}, SInt) }
func dScat() *FnDecl { return tb.Decl("scat", []Sort{SStr, SStr}, SStr) }
func dSsub() *FnDecl { return tb.Decl("ssub", []Sort{SStr, SInt, SInt}, SStr) }
func dSat() *FnDecl  { return tb.Decl("sat", []Sort{SStr, SInt}, SInt) }
func dRep() *FnDecl  { return tb.Decl("rep", []Sort{SStr, SInt}, SStr) }
func dDr() *FnDecl   { return tb.Decl("dr", []Sort{SStr}, SInt) }
func dDl() *FnDecl   { return tb.Decl("dl", []Sort{SStr}, SInt) }
func dRc() *FnDecl   { return tb.Decl("rc", []Sort{SStr}, SInt) }
func dRa() *FnDecl   { return tb.Decl("ra", []Sort{SStr, SInt}, SInt) }

func Slen(s *T) *T {
	if t, ok := litOf(s); ok {
		return tb.Int(int64(len(t)))
	}
	if s.op == "app" && s.name == "scat" {
		return tb.Add(Slen(s.args[0]), Slen(s.args[1]))
	}
	return tb.App(dSlen(), s)
}

func catParts(s *T, out []*T) []*T {
	if s.op == "app" && s.name == "scat" {
		out = catParts(s.args[0], out)
		return catParts(s.args[1], out)
	}
	return append(out, s)
}

// Scat: concatenation, flattened to the right, with literals merged.
func Scat(xs ...*T) *T {
	var ps []*T
	for _, x := range xs {
		ps = catParts(x, ps)
	}
	var out []*T
	for _, p := range ps {
		if t, ok := litOf(p); ok {
			if t == "" {
				continue
			}
			if len(out) > 0 {
				if u, ok := litOf(out[len(out)-1]); ok {
					out[len(out)-1] = strLit(u + t)
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return strLit("")
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = tb.App(dScat(), out[i], r)
	}
	return r
}

// Ssub: s[i:j]; the caller has checked 0 <= i <= j <= len(s).
func Ssub(s, i, j *T) *T {
	if i.isInt() && i.ival == 0 && j == Slen(s) {
		return s
	}
	if i == j {
		return strLit("")
	}
	if t, ok := litOf(s); ok && i.isInt() && j.isInt() && 0 <= i.ival && i.ival <= j.ival && j.ival <= int64(len(t)) {
		return strLit(t[i.ival:j.ival])
	}
	if s.op == "app" && s.name == "ssub" {
		return Ssub(s.args[0], tb.Add(s.args[1], i), tb.Add(s.args[1], j))
	}
	return tb.App(dSsub(), s, i, j)
}

func Sat(s, i *T) *T {
	if t, ok := litOf(s); ok && i.isInt() && i.ival >= 0 && i.ival < int64(len(t)) {
		return tb.Int(int64(t[i.ival]))
	}
	if s.op == "app" && s.name == "ssub" {
		return Sat(s.args[0], tb.Add(s.args[1], i))
	}
	return tb.App(dSat(), s, i)
}

func Rep(s, n *T) *T {
	if n.isInt() && n.ival <= 0 {
		return strLit("")
	}
	if t, ok := litOf(s); ok && n.isInt() && n.ival < 100 {
		return strLit(strings.Repeat(t, int(n.ival)))
	}
	return tb.App(dRep(), s, n)
}

func init() {
	strRebuild = func(name string, args []*T) *T {
		switch name {
		case "scat":
			return Scat(args...)
		case "slen":
			return Slen(args[0])
		case "ssub":
			return Ssub(args[0], args[1], args[2])
		case "sat":
			return Sat(args[0], args[1])
		case "rep":
			return Rep(args[0], args[1])
		}
		return nil
	}
	initStringAxioms()
	initArithAxioms()
}

var litAxCache = map[string][]*Axiom{}

// litAxioms: length, identity and bytes of a literal.
func litAxioms(n string) []*Axiom {
	txt, ok := litText[n]
	if !ok {
		return nil
	}
	if a, ok := litAxCache[n]; ok {
		return a
	}
	t := tb.Var(n, SStr)
	id := tb.Decl("litid", []Sort{SStr}, SInt)
	k := 0
	fmt.Sscanf(n, "lit!%d", &k)
	fs := []*T{
		tb.mk("=", SBool, tb.App(dSlen(), t), tb.Int(int64(len(txt)))),
		tb.mk("=", SBool, tb.App(id, t), tb.Int(int64(k))),
	}
	for i := 0; i < len(txt) && i < 24; i++ {
		fs = append(fs, tb.mk("=", SBool, tb.App(dSat(), t, tb.Int(int64(i))), tb.Int(int64(txt[i]))))
	}
	a := []*Axiom{{name: n, f: tb.And(fs...)}}
	if len(txt) > 0 && len(txt) <= 16 {
		// a part of a string with these bytes is this string
		s, i, j := tb.BVar("s", SStr), tb.BVar("i", SInt), tb.BVar("j", SInt)
		sub := tb.App(dSsub(), s, i, j)
		c := []*T{tb.Le(tb.Int(0), i), tb.Le(j, tb.App(dSlen(), s)), tb.Eq(tb.Sub(j, i), tb.Int(int64(len(txt))))}
		for x := 0; x < len(txt); x++ {
			c = append(c, tb.Eq(tb.App(dSat(), s, tb.AddC(i, int64(x))), tb.Int(int64(txt[x]))))
		}
		a = append(a, &Axiom{name: n + "-bytes", f: tb.Forall([]*T{s, i, j}, [][]*T{{sub}}, tb.Imp(tb.And(c...), tb.mk("=", SBool, sub, t)))})
	}
	if withLibs && len(txt) > 24 && strings.Count(txt, txt[:1]) == len(txt) {
		a = append(a, &Axiom{name: n + "-rep", f: tb.mk("=", SBool, t, Rep(strLit(txt[:1]), tb.Int(int64(len(txt)))))})
	}
	litAxCache[n] = a
	return a
}

func addAxiom(name string, f *T, on ...string) {
	axioms = append(axioms, &Axiom{name: name, on: on, f: f})
}

func initStringAxioms() {
	s, a, b, c := tb.BVar("s", SStr), tb.BVar("a", SStr), tb.BVar("b", SStr), tb.BVar("c", SStr)
	i, j, k, m := tb.BVar("i", SInt), tb.BVar("j", SInt), tb.BVar("k", SInt), tb.BVar("m", SInt)
	sl := func(x *T) *T { return tb.App(dSlen(), x) }
	cat := func(x, y *T) *T { return tb.App(dScat(), x, y) }
	sub := func(x, y, z *T) *T { return tb.App(dSsub(), x, y, z) }
	at := func(x, y *T) *T { return tb.App(dSat(), x, y) }
	dr := func(x *T) *T { return tb.App(dDr(), x) }
	dl := func(x *T) *T { return tb.App(dDl(), x) }
	rc := func(x *T) *T { return tb.App(dRc(), x) }
	ra := func(x, y *T) *T { return tb.App(dRa(), x, y) }
	z := tb.Int(0)
	empty := strLit("")
	all := func(vs []*T, tr []*T, body *T) *T { return tb.Forall(vs, [][]*T{tr}, body) }
	V := func(x ...*T) []*T { return x }
	inB := func(x, lo, hi *T) *T { return tb.And(tb.Le(z, lo), tb.Le(lo, hi), tb.Le(hi, sl(x))) }

	addAxiom("slen-nonneg", all(V(s), V(sl(s)), tb.And(tb.Le(z, sl(s)), tb.Imp(tb.Eq(sl(s), z), tb.Eq(s, empty)))), "slen")
	addAxiom("slen-scat", all(V(a, b), V(cat(a, b)), tb.Eq(sl(cat(a, b)), tb.Add(sl(a), sl(b)))), "scat")
	addAxiom("scat-assoc", all(V(a, b, c), V(cat(cat(a, b), c)), tb.mk("=", SBool, cat(cat(a, b), c), cat(a, cat(b, c)))), "scat")
	addAxiom("scat-empty", tb.And(all(V(a), V(cat(a, empty)), tb.Eq(cat(a, empty), a)), all(V(a), V(cat(empty, a)), tb.Eq(cat(empty, a), a))), "scat")
	addAxiom("slen-ssub", all(V(s, i, j), V(sub(s, i, j)), tb.Imp(inB(s, i, j), tb.Eq(sl(sub(s, i, j)), tb.Sub(j, i)))), "ssub")
	addAxiom("ssub-all", all(V(s, j), V(sub(s, z, j)), tb.Imp(tb.Eq(j, sl(s)), tb.Eq(sub(s, z, j), s))), "ssub")
	addAxiom("ssub-ssub", all(V(s, i, j, k, m), V(sub(sub(s, i, j), k, m)),
		tb.Imp(tb.And(inB(s, i, j), tb.Le(z, k), tb.Le(k, m), tb.Le(m, tb.Sub(j, i))),
			tb.mk("=", SBool, sub(sub(s, i, j), k, m), sub(s, tb.Add(i, k), tb.Add(i, m))))), "ssub")
	if withLibs {
		addAxiom("ssub-scat", all(V(a, b, j), V(sub(cat(a, b), z, j)), tb.Imp(tb.Eq(j, sl(a)), tb.Eq(sub(cat(a, b), z, j), a))), "ssub")
	}
	addAxiom("ssub-split", all(V(s, i, j, k), V(sub(s, i, j), sub(s, j, k)),
		tb.Imp(tb.And(inB(s, i, j), inB(s, j, k)),
			tb.mk("=", SBool, cat(sub(s, i, j), sub(s, j, k)), sub(s, i, k)))), "ssub")
	addAxiom("sat-ssub", all(V(s, i, j, k), V(at(sub(s, i, j), k)),
		tb.Imp(tb.And(inB(s, i, j), tb.Le(z, k), tb.Lt(k, tb.Sub(j, i))),
			tb.mk("=", SBool, at(sub(s, i, j), k), at(s, tb.Add(i, k))))), "ssub")
	addAxiom("sat-range", all(V(s, i), V(at(s, i)), tb.And(tb.Le(z, at(s, i)), tb.Le(at(s, i), tb.Int(255)))), "sat")
	// repetition: ground unfolding from the right, and its length
	unfolders["rep"] = func(app *T) *T {
		x, n := app.args[0], app.args[1]
		r := tb.And(
			tb.Imp(tb.Le(n, z), tb.Eq(app, empty)),
			tb.Imp(tb.Lt(z, n), tb.And(
				tb.mk("=", SBool, app, Scat(Rep(x, tb.AddC(n, -1)), x)),
				tb.mk("=", SBool, app, Scat(x, Rep(x, tb.AddC(n, -1)))))))
		if t, ok := litOf(x); ok {
			r = tb.And(r, tb.Imp(tb.Le(z, n), tb.Eq(sl(app), tb.Mul(tb.Int(int64(len(t))), n))))
		}
		return r
	}
	// decoding one rune
	addAxiom("dr", all(V(s), V(dr(s)), tb.And(tb.Le(z, dr(s)), tb.Le(dr(s), tb.Int(0x10FFFF)),
		tb.Or(tb.Lt(dr(s), tb.Int(0xD800)), tb.Lt(tb.Int(0xDFFF), dr(s))))), "dr")
	addAxiom("dl", all(V(s), V(dl(s)), tb.And(
		tb.Imp(tb.Lt(z, sl(s)), tb.And(tb.Le(tb.Int(1), dl(s)), tb.Le(dl(s), tb.Int(4)), tb.Le(dl(s), sl(s)))),
		tb.Imp(tb.Eq(sl(s), z), tb.And(tb.Eq(dl(s), z), tb.Eq(dr(s), tb.Int(0xFFFD)))))), "dl")
	// a rune that lies within a prefix is decoded the same there
	addAxiom("dr-prefix", all(V(s, i, j), V(dl(sub(s, i, j))),
		tb.Imp(tb.And(inB(s, i, j), tb.Lt(i, j), tb.Le(tb.Add(i, dl(sub(s, i, sl(s)))), j)),
			tb.And(tb.Eq(dl(sub(s, i, j)), dl(sub(s, i, sl(s)))), tb.Eq(dr(sub(s, i, j)), dr(sub(s, i, sl(s))))))), "dl")
	// rune count and runes: by decoding from the front
	addAxiom("rc", all(V(s), V(rc(s)), tb.And(tb.Le(z, rc(s)), tb.Le(rc(s), sl(s)),
		tb.Imp(tb.Lt(z, sl(s)), tb.Le(tb.Int(1), rc(s))))), "rc")
	unfolders["rc"] = func(app *T) *T {
		x := app.args[0]
		if x.size > 60 {
			return nil
		}
		return tb.And(tb.Imp(tb.Eq(Slen(x), z), tb.Eq(app, z)),
			tb.Imp(tb.Lt(z, Slen(x)), tb.Eq(app, tb.AddC(rc(Ssub(x, dl(x), Slen(x))), 1))))
	}
	// the runes after the first one
	addAxiom("ra-step", tb.Forall(V(s, i, j, k), [][]*T{{ra(sub(s, j, sl(s)), k), dl(sub(s, i, sl(s)))}},
		tb.Imp(tb.And(tb.Le(z, i), tb.Lt(i, sl(s)), tb.Eq(j, tb.Add(i, dl(sub(s, i, sl(s))))), tb.Le(z, k)),
			tb.mk("=", SBool, ra(sub(s, i, sl(s)), tb.AddC(k, 1)), ra(sub(s, j, sl(s)), k)))), "ra")
	addAxiom("ra-step0", tb.Forall(V(s, j, k), [][]*T{{ra(sub(s, j, sl(s)), k), dl(s)}},
		tb.Imp(tb.And(tb.Lt(z, sl(s)), tb.Eq(j, dl(s)), tb.Le(z, k)), tb.mk("=", SBool, ra(s, tb.AddC(k, 1)), ra(sub(s, j, sl(s)), k)))), "ra")
	addAxiom("ra", all(V(s, i), V(ra(s, i)), tb.And(
		tb.Imp(tb.Lt(z, sl(s)), tb.mk("=", SBool, ra(s, z), dr(s))),
		tb.Le(z, ra(s, i)), tb.Le(ra(s, i), tb.Int(0x10FFFF)))), "ra")
}

// initArithAxioms: nonlinear products and truncated quotients.
func initArithAxioms() {
	a, b, c := tb.BVar("a", SInt), tb.BVar("b", SInt), tb.BVar("c", SInt)
	md := tb.Decl("mul", []Sort{SInt, SInt}, SInt)
	qd := tb.Decl("quo", []Sort{SInt, SInt}, SInt)
	mul := func(x, y *T) *T { return tb.App(md, x, y) }
	quo := func(x, y *T) *T { return tb.App(qd, x, y) }
	z := tb.Int(0)
	one := tb.Int(1)
	V := func(x ...*T) []*T { return x }
	all := func(vs []*T, tr []*T, body *T) *T { return tb.Forall(vs, [][]*T{tr}, body) }
	addAxiom("mul-comm", all(V(a, b), V(mul(a, b)), tb.mk("=", SBool, mul(a, b), mul(b, a))), "mul")
	addAxiom("mul-sign", all(V(a, b), V(mul(a, b)), tb.And(
		tb.Imp(tb.And(tb.Le(z, a), tb.Le(z, b)), tb.Le(z, mul(a, b))),
		tb.Imp(tb.And(tb.Le(one, a), tb.Le(z, b)), tb.Le(b, mul(a, b))),
		tb.Imp(tb.And(tb.Le(one, a), tb.Le(one, b)), tb.Le(tb.AddC(tb.Add(a, b), -1), mul(a, b))),
		tb.Imp(tb.And(tb.Le(tb.Int(2), a), tb.Le(z, b)), tb.Le(tb.Add(b, b), mul(a, b))),
		tb.Imp(tb.Eq(a, tb.Int(-1)), tb.Eq(mul(a, b), tb.Neg(b))),
		tb.Imp(tb.Eq(a, z), tb.Eq(mul(a, b), z)),
		tb.Imp(tb.Eq(a, one), tb.Eq(mul(a, b), b)))), "mul")
	addAxiom("mul-mono", all(V(a, b, c), V(mul(a, c), mul(b, c)), tb.And(
		tb.Imp(tb.And(tb.Le(z, c), tb.Le(a, b)), tb.Le(mul(a, c), mul(b, c))),
		tb.Imp(tb.And(tb.Le(z, c), tb.Lt(a, b)), tb.Le(tb.Add(mul(a, c), c), mul(b, c))),
		tb.Imp(tb.And(tb.Le(z, c), tb.Lt(tb.AddC(a, 1), b)), tb.Le(tb.Add(mul(a, c), c, c), mul(b, c))),
		tb.Imp(tb.And(tb.Eq(b, tb.AddC(a, 1))), tb.Eq(mul(b, c), tb.Add(mul(a, c), c))))), "mul")
	q := quo(a, b)
	addAxiom("quo", all(V(a, b), V(q), tb.And(
		tb.Imp(tb.And(tb.Le(z, a), tb.Lt(z, b)), tb.And(tb.Le(z, q), tb.Le(q, a), tb.Le(mul(q, b), a), tb.Lt(a, tb.Add(mul(q, b), b)))),
		tb.Imp(tb.And(tb.Lt(a, z), tb.Lt(z, b)), tb.And(tb.Le(q, z), tb.Le(a, q), tb.Le(a, mul(q, b)), tb.Lt(tb.Sub(mul(q, b), b), a))))), "quo")
	groundHks["mul"] = append(groundHks["mul"], tb.expandMul)
	addAxiom("quo-mono", all(V(a, b, c), V(quo(a, b), quo(c, b)), tb.And(
		tb.Imp(tb.And(tb.Le(z, a), tb.Lt(z, b), tb.Eq(c, tb.Add(a, b))), tb.Eq(quo(c, b), tb.AddC(quo(a, b), 1))),
		tb.Imp(tb.And(tb.Lt(z, b), tb.Le(a, c)), tb.Le(quo(a, b), quo(c, b))))), "quo")
	groundHks["quo"] = append(groundHks["quo"], func(app *T) *T {
		if f := tb.expandMul(mul(app, app.args[1])); f != nil {
			return f
		}
		return tb.Bool(true)
	})
	// division of c*b + r
	groundHks["quo"] = append(groundHks["quo"], func(app *T) *T {
		x, y := app.args[0], app.args[1]
		l := tb.toLin(x)
		var fs []*T
		for t := range l.m {
			if t.op == "app" && t.name == "mul" && l.m[t] == 1 {
				var o *T
				if t.args[0] == y {
					o = t.args[1]
				} else if t.args[1] == y {
					o = t.args[0]
				} else {
					continue
				}
				r := tb.Sub(x, t)
				fs = append(fs, tb.Imp(tb.And(tb.Le(z, r), tb.Lt(r, y), tb.Le(z, o)), tb.Eq(app, o)))
			}
		}
		return tb.And(fs...)
	})
}
