package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- specification files

type Param struct {
	name string
	typ  string
}

type SpecFn struct {
	pkg    string
	name   string
	params []Param
	ret    string
	body   ast.Expr // nil: uninterpreted
	src    string
	macro  bool
	// compiled definition
	done  bool
	busy  bool
	heaps []string // heap arrays it reads
	pvars []*T     // parameter placeholders (flattened)
	ptyps []Val    // parameter values
	tmpl  *T
	decl  *FnDecl
	rett  types.Type
}

type Clause struct {
	tags []string
	name string
	src  string
	e    ast.Expr
}

type InvT struct {
	metas []Param
	src   string
	e     ast.Expr
	isM   bool // measure
	owner string
}

type Contract struct {
	pkg      string
	fn       string
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	modifies []Clause
	invs     []InvT
	lets     []Clause // ghost names: let x = expr (entry state)
	pure     bool
	panics   *Clause // panics allowed only if
	witness  []Param // existential witnesses by name
	trusted  bool
	root     bool
}

type Lemma struct {
	pkg      string
	name     string
	params   []Param
	requires []Clause
	ensures  []Clause
	induct   string
	local    bool // used by later lemmas only, not by functions
	trusted  bool
	trigger  []ast.Expr
	tags     []string
	hints    []ast.Expr
}

type Spec struct {
	fns       map[string]*SpecFn
	contracts map[string]*Contract
	lemmas    []*Lemma
	axs       []*Lemma // plain axioms
	order     []string
}

var spec = &Spec{fns: map[string]*SpecFn{}, contracts: map[string]*Contract{}}

var kwRE = regexp.MustCompile(`^(package|ufn|def|macro|axiom|lemma|contract|requires|ensures|modifies|inv|measure|let|panics|induct|trigger|hint|witness|trusted|pure|root|local)(?:\s|$)`)

func parseE(src, where string) ast.Expr {
	e, err := parser.ParseExpr(src)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, src))
	}
	return e
}

var conRE = regexp.MustCompile(`^[^(]*(\(\*?\w+\)\.[^(]*)?\(`)

var tagRE = regexp.MustCompile(`^\[([A-Z0-9, ]+)\]\s*`)

func parseClause(src, where string) Clause {
	c := Clause{}
	src = strings.TrimSpace(src)
	if m := tagRE.FindStringSubmatch(src); m != nil {
		for _, t := range strings.Split(m[1], ",") {
			c.tags = append(c.tags, strings.TrimSpace(t))
		}
		src = src[len(m[0]):]
	}
	c.src = src
	c.e = parseE(src, where)
	return c
}

func parseParams(s string) []Param {
	var r []Param
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	for _, p := range splitTop(s) {
		p = strings.TrimSpace(p)
		i := strings.IndexAny(p, " \t")
		if i < 0 {
			r = append(r, Param{p, ""})
		} else {
			r = append(r, Param{p[:i], strings.TrimSpace(p[i:])})
		}
	}
	// a, b int
	for i := len(r) - 2; i >= 0; i-- {
		if r[i].typ == "" {
			r[i].typ = r[i+1].typ
		}
	}
	return r
}

func splitTop(s string) []string {
	var out []string
	d := 0
	last := 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

// matchParen: s starts with '('; returns inside and rest.
func matchParen(s string) (string, string) {
	d := 0
	for i, c := range s {
		switch c {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return s[1:i], s[i+1:]
			}
		}
	}
	panic("unbalanced: " + s)
}

func loadSpecs(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		loadSpecFile(f)
	}
}

func loadSpecFile(f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	type dir struct {
		txt  string
		line int
	}
	var ds []dir
	for i, l := range strings.Split(string(b), "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], `"`) {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if kwRE.MatchString(t) {
			ds = append(ds, dir{t, i + 1})
		} else if len(ds) > 0 {
			ds[len(ds)-1].txt += " " + t
		} else {
			panic(f + ": text before any directive")
		}
	}
	pkg := ""
	var c *Contract
	var lm *Lemma
	for _, d := range ds {
		where := fmt.Sprintf("%s:%d", filepath.Base(f), d.line)
		kw := strings.TrimSpace(kwRE.FindString(d.txt))
		rest := strings.TrimSpace(d.txt[len(kw):])
		switch kw {
		case "package":
			pkg = rest
			c, lm = nil, nil
		case "ufn", "def", "macro":
			i := strings.Index(rest, "(")
			fn := &SpecFn{pkg: pkg, name: rest[:i], macro: kw == "macro"}
			in, r := matchParen(rest[i:])
			fn.params = parseParams(in)
			if kw == "ufn" {
				fn.ret = strings.TrimSpace(r)
			} else {
				j := strings.Index(r, "=")
				fn.ret = strings.TrimSpace(r[:j])
				fn.src = strings.TrimSpace(r[j+1:])
				fn.body = parseE(fn.src, where)
			}
			if _, dup := spec.fns[fn.name]; dup {
				panic(where + ": duplicate " + fn.name)
			}
			spec.fns[fn.name] = fn
		case "axiom", "lemma":
			i := strings.Index(rest, "(")
			lm = &Lemma{pkg: pkg, name: strings.TrimSpace(rest[:i]), trusted: kw == "axiom"}
			in, r := matchParen(rest[i:])
			lm.params = parseParams(in)
			if r = strings.TrimSpace(r); r != "" {
				lm.ensures = append(lm.ensures, parseClause(strings.TrimPrefix(r, ":"), where))
			}
			c = nil
			spec.lemmas = append(spec.lemmas, lm)
		case "contract":
			c = &Contract{pkg: pkg}
			lm = nil
			// "(*Table).Width(t, colName) (r)"
			m := conRE.FindString(rest)
			if m == "" {
				panic(where + ": contract name")
			}
			k := len(m) - 1
			c.fn = pkg + "." + strings.TrimSpace(rest[:k])
			if pkg == "ext" {
				c.trusted = true
			}
			in, r := matchParen(rest[k:])
			for _, p := range parseParams(in) {
				c.params = append(c.params, p.name)
			}
			r = strings.TrimSpace(r)
			if strings.HasPrefix(r, "(") {
				in, _ := matchParen(r)
				for _, p := range parseParams(in) {
					c.results = append(c.results, p.name)
				}
			}
			spec.contracts[c.fn] = c
			spec.order = append(spec.order, c.fn)
		case "requires":
			if lm != nil {
				lm.requires = append(lm.requires, parseClause(rest, where))
			} else {
				c.requires = append(c.requires, parseClause(rest, where))
			}
		case "ensures":
			cl := parseClause(rest, where)
			if lm != nil {
				lm.ensures = append(lm.ensures, cl)
			} else {
				cl.name = fmt.Sprintf("ensures#%d", len(c.ensures)+1)
				c.ensures = append(c.ensures, cl)
			}
		case "modifies":
			for _, m := range splitTop(rest) {
				c.modifies = append(c.modifies, parseClause(m, where))
			}
		case "let":
			i := strings.Index(rest, "=")
			cl := parseClause(rest[i+1:], where)
			cl.name = strings.TrimSpace(rest[:i])
			c.lets = append(c.lets, cl)
		case "panics":
			cl := parseClause(rest, where)
			c.panics = &cl
		case "witness":
			c.witness = append(c.witness, parseParams(rest)...)
		case "trusted":
			c.trusted = true
		case "pure":
			c.pure = true
		case "root":
			c.root = true
		case "inv", "measure":
			it := InvT{isM: kw == "measure", owner: c.fn}
			if strings.HasPrefix(rest, "{") {
				j := strings.Index(rest, "}")
				it.metas = parseParams(rest[1:j])
				rest = strings.TrimSpace(rest[j+1:])
			}
			it.src = rest
			it.e = parseE(rest, where)
			c.invs = append(c.invs, it)
		case "local":
			lm.local = true
		case "induct":
			lm.induct = rest
		case "hint":
			lm.hints = append(lm.hints, parseE(rest, where))
		case "trigger":
			for _, x := range splitTop(rest) {
				lm.trigger = append(lm.trigger, parseE(strings.TrimSpace(x), where))
			}
		}
	}
}

// ---- evaluation

type specErr struct{ msg string }

func sErr(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

type Env struct {
	pkg   string
	vars  map[string]Val
	st    *State
	old   *State
	depth int
	look  func(name string) (Val, bool) // further names
}

func (e *Env) with(name string, v Val) *Env {
	n := *e
	n.vars = make(map[string]Val, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

// specType resolves a type written in a spec file.
func specType(pkg, s string) (types.Type, Sort) {
	switch s {
	case "int":
		return types.Typ[types.Int], SInt
	case "bool":
		return types.Typ[types.Bool], SBool
	case "string":
		return types.Typ[types.String], SStr
	case "any":
		return types.NewInterfaceType(nil, nil), SIfc
	case "fn":
		return nil, SFn
	}
	if strings.HasPrefix(s, "arr ") {
		_, es := specType(pkg, strings.TrimSpace(s[4:]))
		return nil, ArrSort(SInt, es)
	}
	if strings.HasPrefix(s, "sarr ") {
		_, es := specType(pkg, strings.TrimSpace(s[5:]))
		return nil, ArrSort(SStr, es)
	}
	tp := world.tpkgs[pkg]
	if i := strings.IndexByte(s, '.'); i > 0 { // pointer to a type of another package
		p := strings.TrimLeft(s[:i], "*")
		if q := world.tpkgs[p]; q != nil {
			tp, s = q, s[:i-len(p)]+s[i+1:]
		}
	}
	tv, err := types.Eval(world.fset, tp, token.NoPos, s)
	if err != nil || !tv.IsType() {
		sErr("type %s: %v", s, err)
	}
	l := layout(tv.Type)
	if len(l) == 1 {
		return tv.Type, l[0].sort
	}
	return tv.Type, ""
}

func (e *Env) evalBool(x ast.Expr) *T {
	v := e.eval(x)
	if len(v.l) != 1 || v.l[0].sort != SBool {
		sErr("not a formula: %s", exprStr(x))
	}
	return v.l[0]
}

func (e *Env) evalInt(x ast.Expr) *T {
	v := e.eval(x)
	if len(v.l) != 1 || v.l[0].sort != SInt {
		sErr("not an integer: %s", exprStr(x))
	}
	return v.l[0]
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func boolVal(t *T) Val { return mkVal(types.Typ[types.Bool], t) }
func intVal(t *T) Val  { return mkVal(types.Typ[types.Int], t) }
func strVal(t *T) Val  { return mkVal(types.Typ[types.String], t) }

func (e *Env) ident(name string) (Val, bool) {
	if v, ok := e.vars[name]; ok {
		return v, true
	}
	switch name {
	case "true":
		return boolVal(tb.Bool(true)), true
	case "false":
		return boolVal(tb.Bool(false)), true
	case "nil":
		return Val{l: []*T{tb.Int(0)}, mth: true, t: types.Typ[types.UntypedNil]}, true
	}
	if e.look != nil {
		if v, ok := e.look(name); ok {
			return v, true
		}
	}
	if fn, ok := spec.fns[name]; ok && len(fn.params) == 0 {
		return e.apply(fn, nil), true
	}
	return e.pkgIdent(e.pkg, name)
}

func (e *Env) pkgIdent(pkg, name string) (Val, bool) {
	tp := world.tpkgs[pkg]
	if tp == nil {
		return Val{}, false
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		o = byRole(tp, name)
		if o == nil {
			return Val{}, false
		}
		name = o.Name()
	}
	switch o := o.(type) {
	case *types.Const:
		c := constant.ToInt(o.Val())
		if o.Val().Kind() == constant.String {
			c = o.Val()
		}
		return mkVal(o.Type(), constTerm(o.Type(), c)), true
	case *types.Var:
		g := world.spkgs[pkg].Members[name].(*ssa.Global)
		return e.st.loadPtr(&Ptr{kind: "glob", glob: g, typ: o.Type()}), true
	case *types.Func:
		f := world.spkgs[pkg].Members[name].(*ssa.Function)
		return fnVal(f), true
	}
	return Val{}, false
}

func (e *Env) eval(x ast.Expr) Val {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.Ident:
		if v, ok := e.ident(x.Name); ok {
			return v
		}
		sErr("unknown name %s", x.Name)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, err := strconv.ParseInt(x.Value, 0, 64)
			if err != nil {
				sErr("%v", err)
			}
			return intVal(tb.Int(n))
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\'')
			if err != nil {
				sErr("%v", err)
			}
			return intVal(tb.Int(int64(r)))
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				sErr("%v", err)
			}
			return strVal(strLit(s))
		}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return boolVal(tb.Not(e.evalBool(x.X)))
		case token.SUB:
			return intVal(tb.Neg(e.evalInt(x.X)))
		}
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isVar := e.ident(id.Name); !isVar {
				if world.tpkgs[id.Name] != nil {
					if v, ok := e.pkgIdent(id.Name, x.Sel.Name); ok {
						return v
					}
				}
			}
		}
		return e.selectField(e.eval(x.X), x.Sel.Name)
	case *ast.IndexExpr:
		return e.index(e.eval(x.X), x.Index)
	case *ast.SliceExpr:
		v := e.eval(x.X)
		if len(v.l) != 1 || v.l[0].sort != SStr {
			sErr("slice of a non-string")
		}
		lo, hi := tb.Int(0), Slen(v.l[0])
		if x.Low != nil {
			lo = e.evalInt(x.Low)
		}
		if x.High != nil {
			hi = e.evalInt(x.High)
		}
		return strVal(Ssub(v.l[0], lo, hi))
	case *ast.CallExpr:
		return e.call(x)
	}
	sErr("cannot evaluate %s", exprStr(x))
	return Val{}
}

func (e *Env) binary(x *ast.BinaryExpr) Val {
	switch x.Op {
	case token.LAND:
		a := e.evalBool(x.X)
		if a.isFalse() {
			return boolVal(a)
		}
		return boolVal(tb.And(a, e.evalBool(x.Y)))
	case token.LOR:
		a := e.evalBool(x.X)
		if a.isTrue() {
			return boolVal(a)
		}
		return boolVal(tb.Or(a, e.evalBool(x.Y)))
	}
	a, b := e.eval(x.X), e.eval(x.Y)
	switch x.Op {
	case token.EQL:
		return boolVal(e.equal(a, b))
	case token.NEQ:
		return boolVal(tb.Not(e.equal(a, b)))
	}
	l, r := a.one(), b.one()
	if l.sort != r.sort {
		sErr("operands of %s: %s", x.Op, exprStr(x))
	}
	if l.sort == SStr && x.Op == token.ADD {
		return strVal(Scat(l, r))
	}
	if l.sort != SInt {
		sErr("operands of %s: %s", x.Op, exprStr(x))
	}
	switch x.Op {
	case token.ADD:
		return intVal(tb.Add(l, r))
	case token.SUB:
		return intVal(tb.Sub(l, r))
	case token.MUL:
		return intVal(tb.Mul(l, r))
	case token.QUO:
		return intVal(tb.Quo(l, r))
	case token.REM:
		return intVal(tb.Rem(l, r))
	case token.LSS:
		return boolVal(tb.Lt(l, r))
	case token.LEQ:
		return boolVal(tb.Le(l, r))
	case token.GTR:
		return boolVal(tb.Gt(l, r))
	case token.GEQ:
		return boolVal(tb.Ge(l, r))
	}
	sErr("operator %s", x.Op)
	return Val{}
}

func isNilVal(v Val) bool {
	b, ok := v.t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (e *Env) equal(a, b Val) *T {
	if isNilVal(a) {
		a, b = b, a
	}
	if isNilVal(b) {
		if isNilVal(a) {
			return tb.Bool(true)
		}
		return isNil(a)
	}
	if len(a.l) != len(b.l) {
		sErr("comparison of different types")
	}
	var fs []*T
	for i := range a.l {
		if a.l[i].sort != b.l[i].sort {
			sErr("comparison of different sorts")
		}
		fs = append(fs, tb.Eq(a.l[i], b.l[i]))
	}
	return tb.And(fs...)
}

func isNil(v Val) *T {
	if v.clo != nil {
		return tb.Bool(false)
	}
	if v.ptr != nil {
		return tb.Bool(false)
	}
	return tb.Eq(v.l[0], sortZero(v.l[0].sort))
}

func (e *Env) selectField(v Val, name string) Val {
	t := v.t
	if t == nil {
		sErr("field %s of a value without type", name)
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, world.tpkgs[e.pkg], name)
	if obj == nil {
		// unexported field of another package
		for _, p := range world.tpkgs {
			if obj, path, _ = types.LookupFieldOrMethod(t, true, p, name); obj != nil {
				break
			}
		}
	}
	if obj == nil {
		if n := fieldByRole(t, name); n != "" && n != name {
			return e.selectField(v, n)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		sErr("no field %s in %s", name, t)
	}
	for _, idx := range path {
		v = e.field(v, idx)
	}
	return v
}

func (e *Env) field(v Val, idx int) Val {
	if pt, ok := v.t.Underlying().(*types.Pointer); ok {
		st := pt.Elem().Underlying().(*types.Struct)
		if f := st.Field(idx); ownObject(f) {
			return mkVal(types.NewPointer(f.Type()), tb.AddC(toPtr(v).ref, 1))
		}
		off, _ := fieldOff(st, idx)
		p := *toPtr(v)
		p.off += off
		p.typ = st.Field(idx).Type()
		return e.st.loadPtr(&p)
	}
	st := v.t.Underlying().(*types.Struct)
	off, n := fieldOff(st, idx)
	return Val{t: st.Field(idx).Type(), l: v.l[off : off+n]}
}

func (e *Env) index(v Val, ix ast.Expr) Val {
	if v.t != nil {
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			i := e.evalInt(ix)
			if _, done := firstOff[i]; !done && i.op == "bvar" {
				firstOff[i] = v.l[1]
			}
			p := &Ptr{kind: "elem", ref: v.l[0], root: u.Elem(), idx: tb.Add(v.l[1], i), typ: u.Elem()}
			return e.st.loadPtr(p)
		case *types.Map:
			if len(layout(u.Key())) != 1 {
				sErr("map key")
			}
			r, _ := e.st.mapGet(u, v.l[0], e.eval(ix).one())
			return r
		case *types.Array:
			i := e.evalInt(ix)
			if !i.isInt() {
				sErr("array index must be constant")
			}
			n := len(layout(u.Elem()))
			return Val{t: u.Elem(), l: v.l[int(i.ival)*n : (int(i.ival)+1)*n]}
		}
	}
	if len(v.l) == 1 {
		if v.l[0].sort == SStr {
			return intVal(Sat(v.l[0], e.evalInt(ix)))
		}
		if strings.HasPrefix(string(v.l[0].sort), "(Array") {
			return mathVal(tb.Select(v.l[0], e.eval(ix).one()))
		}
	}
	sErr("cannot index %s", exprStr(ix))
	return Val{}
}

// firstOff: the offset of the slice that a bound variable indexes first
var firstOff = map[*T]*T{}

// shift moves the bound variable of a quantifier over slice elements so that it
// is the place in the underlying array: a solver finds instances of
// a[k] more readily than of a[off+j].
func shift(v, body *T) *T {
	rests := map[*T]bool{}
	var order []*T
	seen := map[*T]bool{}
	plain := false
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].sort == SInt {
			ix := t.args[1]
			if ix == v {
				plain = true
			} else if ix.hasBV {
				l := tb.toLin(ix)
				if l.m[v] == 1 {
					if r := tb.Sub(ix, v); !r.hasBV && !rests[r] {
						rests[r] = true
						order = append(order, r)
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if plain || len(order) == 0 {
		return body
	}
	r := order[0]
	if f := firstOff[v]; f != nil && rests[f] {
		r = f
	}
	return tb.Subst(body, map[*T]*T{v: tb.Sub(v, r)})
}

func (e *Env) quant(x *ast.CallExpr, univ bool) Val {
	// forall(i, lo, hi, body) | forall(s, string, body)
	id, ok := x.Args[0].(*ast.Ident)
	if !ok {
		sErr("bound variable")
	}
	if len(x.Args) == 4 {
		lo, hi := e.evalInt(x.Args[1]), e.evalInt(x.Args[2])
		v := tb.BVar(fmt.Sprintf("b%d", e.depth), SInt)
		e2 := e.with(id.Name, intVal(v))
		e2.depth++
		delete(firstOff, v)
		b := e2.evalBool(x.Args[3])
		g := tb.And(tb.Le(lo, v), tb.Lt(v, hi))
		if univ {
			return boolVal(tb.Forall([]*T{v}, nil, shift(v, tb.Imp(g, b))))
		}
		return boolVal(tb.Exists([]*T{v}, nil, shift(v, tb.And(g, b))))
	}
	var ty types.Type
	var so Sort
	if l, ok := x.Args[1].(*ast.CallExpr); ok && exprStr(l.Fun) == "like" { // of the type of an expression
		lv := e.eval(l.Args[0])
		ty, so = lv.t, lv.one().sort
	} else {
		ty, so = specType(e.pkg, exprStr(x.Args[1]))
	}
	v := tb.BVar(fmt.Sprintf("b%d", e.depth), so)
	bv := Val{t: ty, l: []*T{v}}
	e2 := e.with(id.Name, bv)
	e2.depth++
	delete(firstOff, v)
	b := e2.evalBool(x.Args[2])
	if so == SInt {
		b = shift(v, b)
	}
	if univ {
		return boolVal(tb.Forall([]*T{v}, nil, b))
	}
	return boolVal(tb.Exists([]*T{v}, nil, b))
}

func (e *Env) call(x *ast.CallExpr) Val {
	name := ""
	if id, ok := x.Fun.(*ast.Ident); ok {
		name = id.Name
	}
	argI := func(i int) *T { return e.evalInt(x.Args[i]) }
	switch name {
	case "old":
		if e.old == nil {
			sErr("old() here")
		}
		n := *e
		n.st = e.old
		return n.eval(x.Args[0])
	case "forall":
		return e.quant(x, true)
	case "exists":
		return e.quant(x, false)
	case "implies":
		a := e.evalBool(x.Args[0])
		if a.isFalse() {
			return boolVal(tb.Bool(true))
		}
		return boolVal(tb.Imp(a, e.evalBool(x.Args[1])))
	case "iff":
		return boolVal(tb.Eq(e.evalBool(x.Args[0]), e.evalBool(x.Args[1])))
	case "ite":
		c := e.evalBool(x.Args[0])
		if c.isTrue() {
			return e.eval(x.Args[1])
		}
		if c.isFalse() {
			return e.eval(x.Args[2])
		}
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		r := Val{t: a.t, mth: a.mth}
		for i := range a.l {
			r.l = append(r.l, tb.Ite(c, a.l[i], b.l[i]))
		}
		return r
	case "let":
		id := x.Args[0].(*ast.Ident)
		return e.with(id.Name, e.eval(x.Args[1])).eval(x.Args[2])
	case "min", "max":
		a, b := argI(0), argI(1)
		if name == "min" {
			return intVal(tb.Ite(tb.Le(a, b), a, b))
		}
		return intVal(tb.Ite(tb.Le(b, a), a, b))
	case "len", "cap":
		v := e.eval(x.Args[0])
		if v.t != nil {
			if _, ok := v.t.Underlying().(*types.Slice); ok {
				if name == "cap" {
					return intVal(v.l[3])
				}
				return intVal(v.l[2])
			}
		}
		if len(v.l) == 1 && v.l[0].sort == SStr {
			return intVal(Slen(v.l[0]))
		}
		sErr("len of %s", exprStr(x.Args[0]))
	case "base", "off":
		v := e.eval(x.Args[0])
		if name == "base" {
			return intVal(v.l[0])
		}
		return intVal(v.l[1])
	case "store":
		return mathVal(tb.Store(e.eval(x.Args[0]).one(), e.eval(x.Args[1]).one(), e.eval(x.Args[2]).one()))
	case "at": // element at an absolute position of the underlying array
		v := e.eval(x.Args[0])
		sl, ok := v.t.Underlying().(*types.Slice)
		if !ok {
			sErr("at of a non-slice")
		}
		return e.st.loadPtr(&Ptr{kind: "elem", ref: v.l[0], root: sl.Elem(), idx: argI(1), typ: sl.Elem()})
	case "ref":
		return intVal(e.eval(x.Args[0]).l[0])
	case "elems", "elems0", "elems1", "elems2": // content array of a slice
		v := e.eval(x.Args[0])
		sl, ok := v.t.Underlying().(*types.Slice)
		if !ok {
			sErr("elems of a non-slice")
		}
		i := 0
		if len(name) > 5 {
			i = int(name[5] - '0')
		}
		nm, so := elemHeap(sl.Elem(), i)
		return mathVal(tb.Select(e.st.get(nm, so), v.l[0]))
	case "mapval", "mapdom":
		v := e.eval(x.Args[0])
		m, ok := v.t.Underlying().(*types.Map)
		if !ok {
			sErr("mapval of a non-map")
		}
		nm, so := mapDomHeap(m)
		if name == "mapval" {
			nm, so = mapValHeap(m, 0)
		}
		return mathVal(tb.Select(e.st.get(nm, so), v.l[0]))
	case "has":
		v := e.eval(x.Args[0])
		m, ok := v.t.Underlying().(*types.Map)
		if !ok {
			sErr("has of a non-map")
		}
		_, d := e.st.mapGet(m, v.l[0], e.eval(x.Args[1]).one())
		return boolVal(d)
	case "written": // ghost: everything written to a writer
		return strVal(tb.Select(e.st.get("GH:out", ArrSort(SIfc, SStr)), e.eval(x.Args[0]).one()))
	case "lruval", "lrudom":
		v := e.eval(x.Args[0])
		if m, ok := v.t.Underlying().(*types.Map); ok {
			nm, so := mapDomHeap(m)
			if name == "lruval" {
				nm, so = mapValHeap(m, 0)
			}
			return mathVal(tb.Select(e.st.get(nm, so), v.l[0]))
		}
		nm, so := lruHeap(v.t, name == "lrudom")
		return mathVal(tb.Select(e.st.get(nm, so), v.l[0]))
	case "defined":
		_, ok := e.ident(exprStr(x.Args[0]))
		return boolVal(tb.Bool(ok))
	case "fresh": // allocated since the start of the call
		v := e.eval(x.Args[0])
		if e.old == nil {
			sErr("fresh here")
		}
		return boolVal(tb.Le(e.old.alloc, v.l[0]))
	case "allocated":
		v := e.eval(x.Args[0])
		return boolVal(tb.Lt(v.l[0], e.st.alloc))
	case "alloc":
		return intVal(e.st.alloc)
	case "deref":
		return e.st.loadPtr(toPtr(e.eval(x.Args[0])))
	case "abs":
		a := argI(0)
		return intVal(tb.Ite(tb.Le(tb.Int(0), a), a, tb.Neg(a)))
	case "divc":
		return intVal(tb.DivC(argI(0), argI(1).ival))
	case "modc":
		return intVal(tb.ModC(argI(0), argI(1).ival))
	case "int", "string", "rune":
		return e.eval(x.Args[0])
	case "dr":
		return intVal(tb.App(dDr(), e.eval(x.Args[0]).one()))
	case "dl":
		return intVal(tb.App(dDl(), e.eval(x.Args[0]).one()))
	case "rc":
		return intVal(tb.App(dRc(), e.eval(x.Args[0]).one()))
	case "ra":
		return intVal(tb.App(dRa(), e.eval(x.Args[0]).one(), argI(1)))
	case "rep":
		return strVal(Rep(e.eval(x.Args[0]).one(), argI(1)))
	case "visited":
		if v, ok := e.ident("visited!"); ok {
			return mathVal(tb.Select(v.l[0], e.eval(x.Args[0]).one()))
		}
		sErr("visited outside a range over a map")
	case "werr":
		return boolVal(tb.Bool(e.st.werr))
	case "panicval", "werrv":
		if v, ok := e.ident(name + "!"); ok {
			return v
		}
		sErr("%s here", name)
	case "box":
		return mathVal(boxVal(e.eval(x.Args[0])))
	case "fnc": // constant of a declared function
		v := e.eval(x.Args[0])
		return mathVal(v.l[0])
	}
	if name == "" {
		sErr("call of %s", exprStr(x.Fun))
	}
	fn, ok := spec.fns[name]
	if !ok {
		sErr("unknown spec function %s", name)
	}
	if len(x.Args) != len(fn.params) {
		sErr("%s takes %d arguments", name, len(fn.params))
	}
	if fn.macro {
		e2 := &Env{pkg: fn.pkg, vars: map[string]Val{}, st: e.st, old: e.old, depth: e.depth, look: nil}
		for i, p := range fn.params {
			e2.vars[p.name] = e.eval(x.Args[i])
		}
		return e2.eval(fn.body)
	}
	var args []Val
	for i := range fn.params {
		args = append(args, e.eval(x.Args[i]))
	}
	return e.apply(fn, args)
}

// compile finds the heap arrays a definition reads and its body template.
func (fn *SpecFn) compile() {
	if fn.done || fn.busy {
		return
	}
	rt, rs := specType(fn.pkg, fn.ret)
	fn.rett = rt
	fn.pvars, fn.ptyps = nil, nil
	for _, p := range fn.params {
		ty, so := specType(fn.pkg, p.typ)
		v := Val{t: ty}
		if so != "" {
			pv := tb.Var("pv!"+fn.name+"!"+p.name, so)
			v.l = []*T{pv}
			fn.pvars = append(fn.pvars, pv)
		} else {
			for _, lf := range layout(ty) {
				pv := tb.Var("pv!"+fn.name+"!"+p.name+"."+lf.path, lf.sort)
				v.l = append(v.l, pv)
				fn.pvars = append(fn.pvars, pv)
			}
		}
		fn.ptyps = append(fn.ptyps, v)
	}
	if fn.body == nil {
		var as []Sort
		for _, p := range fn.pvars {
			as = append(as, p.sort)
		}
		fn.decl = tb.Decl(fn.name, as, rs)
		fn.done = true
		return
	}
	fn.busy = true
	for round := 0; ; round++ {
		rec := &recorder{sorts: map[string]Sort{}}
		st := &State{heap: map[string]*T{}, cells: map[*Cell]Val{}, rec: rec, alloc: tb.Var("hp!alloc", SInt)}
		// arrays known so far keep their order
		for _, h := range fn.heaps {
			st.get(h, heapSorts[h])
		}
		var as []Sort
		for _, h := range fn.heaps {
			as = append(as, heapSorts[h])
		}
		for _, p := range fn.pvars {
			as = append(as, p.sort)
		}
		nm := fn.name
		if round > 0 || len(fn.heaps) > 0 {
			nm = fmt.Sprintf("%s.%d", fn.name, len(fn.heaps))
		}
		fn.decl = tb.Decl(nm, as, rs)
		env := &Env{pkg: fn.pkg, vars: map[string]Val{}, st: st}
		for i, p := range fn.params {
			env.vars[p.name] = fn.ptyps[i]
		}
		b := env.eval(fn.body).one()
		if b.sort != rs {
			sErr("%s: body has sort %s, declared %s", fn.name, b.sort, rs)
		}
		fn.tmpl = b
		if len(rec.names) == len(fn.heaps) {
			break
		}
		fn.heaps = append([]string{}, rec.names...)
	}
	fn.busy = false
	fn.done = true
	nh := len(fn.heaps)
	unfolders[fn.decl.name] = func(app *T) *T {
		m := map[*T]*T{}
		for i, h := range fn.heaps {
			m[tb.Var("hp!"+h, heapSorts[h])] = app.args[i]
		}
		for i, p := range fn.pvars {
			m[p] = app.args[nh+i]
		}
		d := tb.Subst(fn.tmpl, m)
		if d == app {
			return nil
		}
		if app.sort == SInt || app.sort == SStr {
			return tb.mk("=", SBool, app, d)
		}
		return tb.Eq(app, d)
	}
}

func (e *Env) apply(fn *SpecFn, args []Val) Val {
	fn.compile()
	var ts []*T
	for _, h := range fn.heaps {
		ts = append(ts, e.st.get(h, heapSorts[h]))
	}
	k := 0
	for i, a := range args {
		if len(a.l) != len(fn.ptyps[i].l) {
			// interface parameters accept nil
			sErr("%s: argument %d", fn.name, i+1)
		}
		for _, x := range a.l {
			if isNilVal(a) {
				x = sortZero(fn.pvars[k].sort)
			}
			if x.sort != fn.pvars[k].sort {
				sErr("%s: argument %d has sort %s", fn.name, i+1, x.sort)
			}
			ts = append(ts, x)
			k++
		}
	}
	r := tb.App(fn.decl, ts...)
	return Val{t: fn.rett, l: []*T{r}}
}

// lruHeap: ghost content of an LRU cache, by the type of the cache pointer.
func lruHeap(t types.Type, dom bool) (string, Sort) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		sErr("not a cache: %s", t)
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.TypeArgs().Len() != 2 {
		sErr("not a cache: %s", t)
	}
	kl, vl := layout(n.TypeArgs().At(0)), layout(n.TypeArgs().At(1))
	if len(kl) != 1 || len(vl) != 1 {
		sErr("cache of %s", t)
	}
	k := typeKey(n)
	if dom {
		return "MD:" + k, ArrSort(SInt, ArrSort(kl[0].sort, SBool))
	}
	nm := "MV:" + k
	if _, ok := heapLeaf[nm]; !ok {
		heapLeaf[nm] = vl[0]
	}
	return nm, ArrSort(SInt, ArrSort(kl[0].sort, vl[0].sort))
}

// byRole finds a renamed package-level variable by its type.
func byRole(tp *types.Package, name string) types.Object {
	want := map[string]string{"widthCache": "lru.Cache[", "reLoc": "regexp.Regexp", "ansiEscapeRE": "regexp.Regexp"}[name]
	if want == "" {
		return nil
	}
	var r types.Object
	for _, n := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && strings.Contains(typeKey(v.Type()), want) {
			if r != nil {
				return nil
			}
			r = v
		}
	}
	return r
}

// fieldByRole finds a renamed unexported field by its type.
func fieldByRole(t types.Type, name string) string {
	want := map[string]string{"columnWidth": "map[string]uint16", "combinedLut": "[]uint8"}[name]
	if want == "" {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	r := ""
	for i := 0; i < st.NumFields(); i++ {
		if k := typeKey(st.Field(i).Type()); k == want {
			if r != "" {
				return ""
			}
			r = st.Field(i).Name()
		}
	}
	return r
}
