package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort in SMT-LIB syntax.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "S"
	SIfc  Sort = "I"
	SFn   Sort = "Fn"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// elemSort returns the value sort of an array sort.
func (s Sort) split() (k, v Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	in := str[7 : len(str)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad sort " + str)
}

// T is a hash-consed term.
type T struct {
	op    string // "int","true","false","var","bvar", or an operator / function name
	args  []*T
	sort  Sort
	ival  int64
	name  string // var name
	id    int
	hasBV bool    // contains a bound variable free
	bvs   []*T    // for quantifiers: the bound variables
	trigs [][]*T  // for quantifiers
	fdecl *FnDecl // declared function applied
	size  int
}

// FnDecl is a declared SMT function.
type FnDecl struct {
	name string
	args []Sort
	ret  Sort
}

type TB struct {
	tab   map[string]*T
	next  int
	decls map[string]*FnDecl
	order []string
}

func NewTB() *TB {
	return &TB{tab: map[string]*T{}, decls: map[string]*FnDecl{}}
}

// tb is the term table of this process.
var tb = NewTB()

func (b *TB) intern(t *T) *T {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	if t.op == "int" {
		sb.WriteString(strconv.FormatInt(t.ival, 10))
	}
	if t.op == "var" || t.op == "bvar" || t.op == "constarr" {
		sb.WriteString(string(t.sort))
	}
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if len(t.bvs) > 0 {
		sb.WriteString("/q")
		for _, v := range t.bvs {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(v.id))
		}
		for _, tr := range t.trigs {
			sb.WriteByte(';')
			for _, x := range tr {
				sb.WriteByte(',')
				sb.WriteString(strconv.Itoa(x.id))
			}
		}
	}
	k := sb.String()
	if o, ok := b.tab[k]; ok {
		return o
	}
	b.next++
	t.id = b.next
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.hasBV && len(t.bvs) == 0 {
			t.hasBV = true
		}
	}
	if t.op == "bvar" {
		t.hasBV = true
	}
	if len(t.bvs) > 0 {
		// free bound variables other than ours
		t.hasBV = len(freeBV(t)) > 0
	}
	b.tab[k] = t
	return t
}

func freeBV(t *T) map[*T]bool {
	r := map[*T]bool{}
	if len(t.bvs) > 0 {
		for _, a := range t.args {
			for v := range freeBV(a) {
				r[v] = true
			}
		}
		for _, v := range t.bvs {
			delete(r, v)
		}
		return r
	}
	if !t.hasBV && t.op != "bvar" {
		return r
	}
	if t.op == "bvar" {
		r[t] = true
		return r
	}
	for _, a := range t.args {
		for v := range freeBV(a) {
			r[v] = true
		}
	}
	return r
}

func (b *TB) Int(v int64) *T { return b.intern(&T{op: "int", ival: v, sort: SInt}) }
func (b *TB) Bool(v bool) *T {
	if v {
		return b.intern(&T{op: "true", sort: SBool})
	}
	return b.intern(&T{op: "false", sort: SBool})
}
func (b *TB) Var(name string, s Sort) *T {
	return b.intern(&T{op: "var", name: name, sort: s})
}

// BVar: bound variables are named by nesting depth (by the caller), so that
// equal formulas evaluated twice are equal terms.
func (b *TB) BVar(name string, s Sort) *T {
	return b.intern(&T{op: "bvar", name: name, sort: s})
}

func (b *TB) Decl(name string, args []Sort, ret Sort) *FnDecl {
	if d, ok := b.decls[name]; ok {
		return d
	}
	d := &FnDecl{name, args, ret}
	b.decls[name] = d
	b.order = append(b.order, name)
	return d
}

func (b *TB) App(d *FnDecl, args ...*T) *T {
	if len(args) != len(d.args) {
		panic(fmt.Sprintf("%s: %d args, want %d", d.name, len(args), len(d.args)))
	}
	for i, a := range args {
		if a.sort != d.args[i] {
			panic(fmt.Sprintf("%s: arg %d has sort %s, want %s (%s)", d.name, i, a.sort, d.args[i], b.Str(a)))
		}
	}
	if len(args) == 0 {
		return b.Var(d.name, d.ret)
	}
	return b.intern(&T{op: "app", name: d.name, args: args, sort: d.ret, fdecl: d})
}

func (t *T) isTrue() bool  { return t.op == "true" }
func (t *T) isFalse() bool { return t.op == "false" }
func (t *T) isInt() bool   { return t.op == "int" }

func (b *TB) mk(op string, s Sort, args ...*T) *T {
	return b.intern(&T{op: op, args: args, sort: s})
}

func (b *TB) Not(a *T) *T {
	switch a.op {
	case "true":
		return b.Bool(false)
	case "false":
		return b.Bool(true)
	case "not":
		return a.args[0]
	}
	return b.mk("not", SBool, a)
}

func (b *TB) And(xs ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	for _, x := range xs {
		if x.isFalse() {
			return x
		}
		if x.isTrue() || seen[x] {
			continue
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	for _, x := range out {
		if seen[b.Not(x)] {
			return b.Bool(false)
		}
	}
	switch len(out) {
	case 0:
		return b.Bool(true)
	case 1:
		return out[0]
	}
	return b.mk("and", SBool, out...)
}

func (b *TB) Or(xs ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	for _, x := range xs {
		if x.isTrue() {
			return x
		}
		if x.isFalse() || seen[x] {
			continue
		}
		if x.op == "or" {
			for _, y := range x.args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return b.Bool(false)
	case 1:
		return out[0]
	}
	return b.mk("or", SBool, out...)
}

func (b *TB) Imp(a, c *T) *T {
	if a.isTrue() {
		return c
	}
	if a.isFalse() || c.isTrue() {
		return b.Bool(true)
	}
	if c.isFalse() {
		return b.Not(a)
	}
	return b.mk("=>", SBool, a, c)
}

func (b *TB) Eq(x, y *T) *T {
	if x == y {
		return b.Bool(true)
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("eq of %s and %s: %s = %s", x.sort, y.sort, b.Str(x), b.Str(y)))
	}
	if x.sort == SInt {
		d := b.Sub(x, y)
		if d.isInt() {
			return b.Bool(d.ival == 0)
		}
		// canonical order
		if x.id > y.id {
			x, y = y, x
		}
		return b.mk("=", SBool, x, y)
	}
	if x.sort == SBool {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.op == "var" && y.op == "var" && isLit(x) && isLit(y) {
		return b.Bool(false)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk("=", SBool, x, y)
}

// isLit: distinct constants (string literals, function constants).
func isLit(t *T) bool {
	return strings.HasPrefix(t.name, "lit!") || strings.HasPrefix(t.name, "fn!")
}

func (b *TB) Ite(c, x, y *T) *T {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x.sort == SBool {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return b.Not(c)
		}
		if x.isTrue() {
			return b.Or(c, y)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("ite sorts %s %s", x.sort, y.sort))
	}
	return b.mk("ite", x.sort, c, x, y)
}

// ---- linear arithmetic normal form

type lin struct {
	c   int64
	m   map[*T]int64
	big bool // a number does not fit
}

// plus adds k*c, noting overflow.
func (l *lin) plus(x, k, c int64) int64 {
	p := k * c
	if k != 0 && (p/k != c || k == -1 && c == math.MinInt64 || c == -1 && k == math.MinInt64) {
		l.big = true
	}
	r := x + p
	if (p > 0 && r < x) || (p < 0 && r > x) {
		l.big = true
	}
	return r
}

func (b *TB) toLin(t *T) lin {
	l := lin{m: map[*T]int64{}}
	b.addLin(&l, t, 1)
	return l
}

func (b *TB) addLin(l *lin, t *T, k int64) {
	switch t.op {
	case "int":
		l.c = l.plus(l.c, k, t.ival)
	case "+":
		for _, a := range t.args {
			b.addLin(l, a, k)
		}
	case "cmul":
		l.m[t.args[1]] = l.plus(l.m[t.args[1]], k, t.args[0].ival)
	default:
		l.m[t] = l.plus(l.m[t], k, 1)
	}
}

func (b *TB) fromLin(l lin) *T {
	if l.big {
		unsupported("a number beyond 64 bits")
	}
	var ks []*T
	for t, c := range l.m {
		if c != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*T
	for _, t := range ks {
		c := l.m[t]
		if c == 1 {
			args = append(args, t)
		} else {
			args = append(args, b.mk("cmul", SInt, b.Int(c), t))
		}
	}
	if l.c != 0 || len(args) == 0 {
		args = append(args, b.Int(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return b.mk("+", SInt, args...)
}

func (b *TB) Add(xs ...*T) *T {
	l := lin{m: map[*T]int64{}}
	for _, x := range xs {
		b.addLin(&l, x, 1)
	}
	return b.fromLin(l)
}
func (b *TB) Sub(x, y *T) *T {
	l := lin{m: map[*T]int64{}}
	b.addLin(&l, x, 1)
	b.addLin(&l, y, -1)
	return b.fromLin(l)
}
func (b *TB) Neg(x *T) *T { return b.Sub(b.Int(0), x) }

func (b *TB) AddC(x *T, c int64) *T { return b.Add(x, b.Int(c)) }

var mulDecl *FnDecl

func (b *TB) Mul(x, y *T) *T {
	lx, ly := b.toLin(x), b.toLin(y)
	res := lin{m: map[*T]int64{}}
	res.big = lx.big || ly.big
	res.c = res.plus(0, lx.c, ly.c)
	for t, c := range lx.m {
		res.m[t] = res.plus(res.m[t], c, ly.c)
	}
	for t, c := range ly.m {
		res.m[t] = res.plus(res.m[t], c, lx.c)
	}
	d := b.Decl("mul", []Sort{SInt, SInt}, SInt)
	// a sum of several terms is multiplied as a whole; expandMul relates the
	// product to the products of the terms
	whole := func(l lin) map[*T]int64 {
		if len(l.m) < 2 {
			return l.m
		}
		n := lin{m: l.m}
		return map[*T]int64{b.fromLin(n): 1}
	}
	for t, c := range whole(lx) {
		for u, e := range whole(ly) {
			if c*e == 0 {
				continue
			}
			a, z := t, u
			if a.id > z.id {
				a, z = z, a
			}
			b.addLin(&res, b.App(d, a, z), res.plus(0, c, e))
		}
	}
	return b.fromLin(res)
}

// expandMul: the product of sums as a sum of products.
func (b *TB) expandMul(app *T) *T {
	lx, ly := b.toLin(app.args[0]), b.toLin(app.args[1])
	if len(lx.m) < 2 && len(ly.m) < 2 && lx.c == 0 && ly.c == 0 {
		return nil
	}
	var sum []*T
	part := func(l lin) (out []*T) {
		var ks []*T
		for t := range l.m {
			ks = append(ks, t)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, t := range ks {
			out = append(out, b.fromLin(lin{m: map[*T]int64{t: l.m[t]}}))
		}
		if l.c != 0 {
			out = append(out, b.Int(l.c))
		}
		return
	}
	for _, x := range part(lx) {
		for _, y := range part(ly) {
			sum = append(sum, b.Mul(x, y))
		}
	}
	return b.Eq(app, b.Add(sum...))
}

func floorDiv(a, k int64) int64 {
	q := a / k
	if a%k != 0 && (a < 0) != (k < 0) {
		q--
	}
	return q
}

// DivC: floor division by a positive constant.
func (b *TB) DivC(x *T, k int64) *T {
	if k == 1 {
		return x
	}
	if x.isInt() {
		return b.Int(floorDiv(x.ival, k))
	}
	// pull out multiples of k
	l := b.toLin(x)
	out := lin{m: map[*T]int64{}}
	rest := lin{m: map[*T]int64{}}
	for t, c := range l.m {
		if c%k == 0 {
			out.m[t] = c / k
		} else {
			rest.m[t] = c
		}
	}
	q := floorDiv(l.c, k)
	out.c = q
	rest.c = l.c - q*k
	r := b.fromLin(rest)
	if r.isInt() {
		return b.fromLin(out) // 0 <= rest.c < k
	}
	b.addLin(&out, b.mk("div", SInt, r, b.Int(k)), 1)
	return b.fromLin(out)
}

// ModC: x mod k, k positive constant, result in [0,k).
func (b *TB) ModC(x *T, k int64) *T {
	if k == 1 {
		return b.Int(0)
	}
	if x.isInt() {
		return b.Int(x.ival - k*floorDiv(x.ival, k))
	}
	l := b.toLin(x)
	rest := lin{m: map[*T]int64{}}
	for t, c := range l.m {
		if m := c - k*floorDiv(c, k); m != 0 {
			rest.m[t] = m
		}
	}
	rest.c = l.c - k*floorDiv(l.c, k)
	r := b.fromLin(rest)
	if r.isInt() {
		return r
	}
	return b.mk("mod", SInt, r, b.Int(k))
}

// Quo: Go's truncated division.
func (b *TB) Quo(x, y *T) *T {
	if y.isInt() && y.ival > 0 {
		if x.isInt() {
			return b.Int(x.ival / y.ival)
		}
		return b.Ite(b.Le(b.Int(0), x), b.DivC(x, y.ival), b.Neg(b.DivC(b.Neg(x), y.ival)))
	}
	d := b.Decl("quo", []Sort{SInt, SInt}, SInt)
	return b.App(d, x, y)
}

func (b *TB) Rem(x, y *T) *T {
	if y.isInt() && y.ival > 0 {
		if x.isInt() {
			return b.Int(x.ival % y.ival)
		}
		return b.Sub(x, b.Mul(b.Quo(x, y), y))
	}
	return b.Sub(x, b.Mul(b.Quo(x, y), y))
}

func (b *TB) Le(x, y *T) *T {
	if x.isInt() && y.isInt() {
		return b.Bool(x.ival <= y.ival)
	}
	l := lin{m: map[*T]int64{}}
	b.addLin(&l, y, 1)
	b.addLin(&l, x, -1)
	if !l.big {
		if d := b.fromLin(l); d.isInt() {
			return b.Bool(d.ival >= 0)
		}
	}
	return b.mk("<=", SBool, x, y)
}
func (b *TB) Lt(x, y *T) *T {
	if b.toLin(x).c == math.MaxInt64 {
		return b.Not(b.Le(y, x))
	}
	return b.Le(b.AddC(x, 1), y)
}
func (b *TB) Ge(x, y *T) *T { return b.Le(y, x) }
func (b *TB) Gt(x, y *T) *T { return b.Lt(y, x) }

func (b *TB) Select(a, i *T) *T {
	_, v := a.sort.split()
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			e := b.Eq(a.args[1], i)
			if e.isTrue() {
				return a.args[2]
			}
			if e.isFalse() {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	if selHook != nil && (i.isInt() || a.op == "var") {
		if r := selHook(a, i); r != nil {
			return r
		}
	}
	return b.mk("select", v, a, i)
}

// selHook simplifies selections from constant tables.
var selHook func(a, i *T) *T

func (b *TB) Store(a, i, v *T) *T {
	k, vs := a.sort.split()
	if i.sort != k || v.sort != vs {
		panic(fmt.Sprintf("store sorts %s [%s] := %s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return b.mk("store", a.sort, a, i, v)
}

func (b *TB) ConstArr(s Sort, v *T) *T {
	return b.intern(&T{op: "constarr", args: []*T{v}, sort: s})
}

func (b *TB) Forall(vs []*T, trigs [][]*T, body *T) *T { return b.quant("forall", vs, trigs, body) }
func (b *TB) Exists(vs []*T, trigs [][]*T, body *T) *T { return b.quant("exists", vs, trigs, body) }

func (b *TB) quant(q string, vs []*T, trigs [][]*T, body *T) *T {
	if body.isTrue() || body.isFalse() {
		return body
	}
	// drop unused
	fv := freeBV(body)
	var use []*T
	for _, v := range vs {
		if fv[v] {
			use = append(use, v)
		}
	}
	if len(use) == 0 {
		return body
	}
	var tr [][]*T
	for _, g := range trigs {
		cov := map[*T]bool{}
		ok := true
		for _, x := range g {
			if x.op == "bvar" || !x.hasBV {
				ok = false
			}
			for v := range freeBV(x) {
				cov[v] = true
			}
		}
		for _, v := range use {
			if !cov[v] {
				ok = false
			}
		}
		if ok {
			tr = append(tr, g)
		}
	}
	return b.intern(&T{op: q, args: []*T{body}, sort: SBool, bvs: use, trigs: tr})
}

// Subst replaces terms (variables or bound variables) by others.
func (b *TB) Subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	return b.subst(t, m, memo)
}

func (b *TB) subst(t *T, m map[*T]*T, memo map[*T]*T) *T {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*T, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = b.subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	var r *T
	if !ch {
		r = t
	} else {
		r = b.rebuild(t, args, func(x *T) *T { return b.subst(x, m, memo) })
	}
	memo[t] = r
	return r
}

func (b *TB) rebuild(t *T, args []*T, f func(*T) *T) *T {
	switch t.op {
	case "not":
		return b.Not(args[0])
	case "and":
		return b.And(args...)
	case "or":
		return b.Or(args...)
	case "=>":
		return b.Imp(args[0], args[1])
	case "=":
		return b.Eq(args[0], args[1])
	case "ite":
		return b.Ite(args[0], args[1], args[2])
	case "+":
		return b.Add(args...)
	case "cmul":
		return b.Mul(args[0], args[1])
	case "div":
		return b.DivC(args[0], args[1].ival)
	case "mod":
		return b.ModC(args[0], args[1].ival)
	case "<=":
		return b.Le(args[0], args[1])
	case "select":
		return b.Select(args[0], args[1])
	case "store":
		return b.Store(args[0], args[1], args[2])
	case "constarr":
		return b.ConstArr(t.sort, args[0])
	case "forall", "exists":
		var trs [][]*T
		for _, g := range t.trigs {
			var n []*T
			for _, x := range g {
				n = append(n, f(x))
			}
			trs = append(trs, n)
		}
		return b.quant(t.op, t.bvs, trs, args[0])
	case "app":
		if t.name == "mul" {
			return b.Mul(args[0], args[1])
		}
		if t.name == "quo" {
			return b.Quo(args[0], args[1])
		}
		if strRebuild != nil {
			if r := strRebuild(t.name, args); r != nil {
				return r
			}
		}
		return b.App(t.fdecl, args...)
	}
	panic("rebuild " + t.op)
}

var strRebuild func(name string, args []*T) *T

// ---- printing

func symName(s string) string {
	ok := s != ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.') {
			ok = false
			break
		}
	}
	if ok && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(s, "|", "!") + "|"
}

func (b *TB) Str(t *T) string {
	var sb strings.Builder
	b.write(&sb, t, nil)
	return sb.String()
}

func intStr(v int64) string {
	if v < 0 {
		if v == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return "(- " + strconv.FormatInt(-v, 10) + ")"
	}
	return strconv.FormatInt(v, 10)
}

func (b *TB) write(sb *strings.Builder, t *T, named map[*T]string) {
	if n, ok := named[t]; ok {
		sb.WriteString(n)
		return
	}
	b.writeTop(sb, t, named)
}

func (b *TB) writeTop(sb *strings.Builder, t *T, named map[*T]string) {
	switch t.op {
	case "int":
		sb.WriteString(intStr(t.ival))
	case "true", "false":
		sb.WriteString(t.op)
	case "var", "bvar":
		sb.WriteString(symName(t.name))
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.bvs {
			sb.WriteString("(" + symName(v.name) + " " + string(v.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.trigs) > 0 {
			sb.WriteString("(! ")
		}
		b.write(sb, t.args[0], named)
		for _, g := range t.trigs {
			sb.WriteString(" :pattern (")
			for i, x := range g {
				if i > 0 {
					sb.WriteByte(' ')
				}
				b.write(sb, x, named)
			}
			sb.WriteString(")")
		}
		if len(t.trigs) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	case "constarr":
		sb.WriteString("((as const " + string(t.sort) + ") ")
		b.write(sb, t.args[0], named)
		sb.WriteString(")")
	default:
		op := t.op
		if op == "cmul" {
			op = "*"
		} else if op == "app" {
			op = symName(t.name)
		}
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			b.write(sb, a, named)
		}
		sb.WriteString(")")
	}
}
