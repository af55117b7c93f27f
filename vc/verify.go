package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report is the outcome of verifying one function or lemma.
type Report struct {
	Fn       string         `json:"fn"`
	Kind     string         `json:"kind"`
	OK       bool           `json:"ok"`
	Obls     []*Obl         `json:"obls"`
	Used     []string       `json:"used,omitempty"`
	Inlined  []string       `json:"inlined,omitempty"`
	Exts     []string       `json:"exts,omitempty"`
	Paths    int            `json:"paths"`
	Queries  int            `json:"queries"`
	Solver   float64        `json:"solver_s"`
	Wall     float64        `json:"wall_s"`
	Backends map[string]int `json:"backends,omitempty"`
	Tabs     []*TabFact     `json:"tabs,omitempty"`
	Err      string         `json:"err,omitempty"`
	Tried    []string       `json:"tried,omitempty"`
	Missing  bool           `json:"missing,omitempty"`
	Skipped  string         `json:"skipped,omitempty"` // lemma that speaks of something the source does not have; not used either
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type Options struct {
	inline                       map[string]bool
	limit                        time.Duration
	quick                        int
	hard                         int
	wide, noMerge, narrow, share bool
	par                          int // solver processes for loop candidates
}

// verifyFn tries the cheap strategy first: loop invariants with the variable
// names they are written with, then with every variable of a fitting type, then
// without joining paths.
func verifyFn(key string, opt Options) *Report {
	t0 := time.Now()
	first := opt
	first.share = true
	rep := verifyOnce(key, first)
	if rep.OK || rep.Missing || opt.narrow {
		return rep
	}
	tried := []string{"quick"}
	for _, s := range []string{"narrow", "wide", "unmerged"} {
		o := opt
		o.wide = s != "narrow"
		o.noMerge = s == "unmerged"
		left := opt.limit - time.Since(t0)
		if opt.limit > 0 {
			if left < 5*time.Second {
				break
			}
			o.limit = left
		}
		r := verifyOnce(key, o)
		tried = append(tried, s)
		if r.OK {
			rep = r
			break
		}
		if nfail(r) < nfail(rep) {
			rep = r
		}
	}
	rep.Tried = tried
	rep.Wall = time.Since(t0).Seconds()
	return rep
}

func nfail(r *Report) int {
	n := 0
	for _, o := range r.Obls {
		if !o.OK {
			n++
			if o.Kind == "reach" {
				n += 100
			}
		}
	}
	return n
}

func verifyOnce(key string, opt Options) (rep *Report) {
	t0 := time.Now()
	rep = &Report{Fn: key, Kind: "function"}
	fn := world.funcs[key]
	con := spec.contracts[key]
	if fn == nil || fn.Blocks == nil {
		rep.Missing = true
		rep.Err = "function not found in the source"
		return
	}
	v := &Verifier{sess: newSession(), fn: fn, key: key, con: con, params: map[string]Val{}, wideArgs: map[string]bool{}, oblBy: map[string]*Obl{},
		inline: opt.inline, used: map[string]bool{}, exts: map[string]bool{}, inlined: map[string]bool{}, quickMs: opt.quick, hardMs: opt.hard, assumed: map[string]bool{},
		wide: opt.wide, noMerge: opt.noMerge, share: opt.share, loopLive: map[string]map[string]bool{}}
	v.poolN = opt.par
	if v.poolN < 1 {
		v.poolN = 1
	}
	defer func() {
		v.sess.close()
		for _, s := range v.poolS {
			s.close()
		}
	}()
	if opt.limit > 0 {
		end := t0.Add(opt.limit)
		v.deadline = func() bool { return time.Now().After(end) }
	}
	defer func() {
		if e := recover(); e != nil {
			nm, msg := "", ""
			switch x := e.(type) {
			case unsup:
				nm, msg = "within-reach", "outside the verifier's reach: "+x.msg
			case timeUp:
				nm, msg = "in-time", "time limit reached"
			case specErr:
				nm, msg = "contract-applies", "the contract cannot be evaluated on this code: "+x.msg
			default:
				nm, msg = "within-reach", fmt.Sprintf("verifier failure: %v\n%s", e, debug.Stack())
			}
			if debugOn {
				fmt.Printf("FAIL %s %s: %s\n", key, nm, msg)
				if _, ok := e.(unsup); ok && debugVerbose {
					fmt.Printf("%s\n", debug.Stack())
				}
			}
			o := v.obl("reach", nm, nil, msg, token.NoPos)
			o.OK = false
			o.Reason = msg
		}
		rep.Obls = v.obls
		rep.OK = len(v.obls) > 0
		for _, o := range v.obls {
			if !o.OK {
				rep.OK = false
			}
		}
		rep.Used, rep.Inlined, rep.Exts = keysOf(v.used), keysOf(v.inlined), keysOf(v.exts)
		rep.Paths = v.paths
		rep.Queries = stats.queries
		rep.Solver = stats.solverTime.Seconds()
		rep.Wall = time.Since(t0).Seconds()
		rep.Backends = stats.byBackend
		var ks []string
		for k := range tabFacts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			rep.Tabs = append(rep.Tabs, tabFacts[k])
		}
	}()
	if m := contractMisfit(fn, con); m != "" {
		sErr("%s", m)
	}
	v.top()
	return
}

// pool: loop invariants of this contract and of the contracts of functions that
// are executed in place.
func (v *Verifier) pool() {
	v.invPool = append(v.invPool, v.con.invs...)
	seen := map[string]bool{v.key: true}
	for k := range v.inline {
		if c := spec.contracts[k]; c != nil && !seen[k] {
			seen[k] = true
			v.invPool = append(v.invPool, c.invs...)
		}
	}
}

func (v *Verifier) top() {
	st := &State{heap: map[string]*T{}, cells: map[*Cell]Val{}, alloc: tb.Var("alloc@0", SInt)}
	st.assume(tb.Le(tb.Int(1), st.alloc))
	fr := &Frame{fn: v.fn, regs: map[ssa.Value]Val{}, names: map[string]Named{}, unroll: map[*ssa.BasicBlock]int{}, info: infoOf(v.fn)}
	for i, p := range v.fn.Params {
		x := Val{t: p.Type()}
		for _, lf := range layout(p.Type()) {
			n := p.Name()
			if lf.path != "" {
				n += "." + lf.path
			}
			x.l = append(x.l, tb.Var("arg:"+n, lf.sort))
		}
		st.assume(typeFacts(x))
		st.assume(st.refFacts(x))
		fr.regs[p] = x
		fr.names[p.Name()] = Named{val: x, src: p}
		v.params[v.con.params[i]] = x
		if bits, signed, ok := intBits(p.Type()); ok && bits == 64 && token.IsExported(v.fn.Name()) && len(x.l) == 1 {
			lo := tb.Int(0)
			if signed {
				lo = tb.AddC(tb.Neg(maxInt()), -1)
			}
			st.assume(tb.And(tb.Le(lo, x.one()), tb.Le(x.one(), maxInt())))
			v.wideArgs[x.one().name] = true
		}
	}
	v.entry = st.clone()
	env := v.contractEnv(v.con, v.params, st, nil)
	for _, r := range v.con.requires {
		st.assume(env.evalBool(r.e))
	}
	// heap terms first seen while evaluating the preconditions belong to the entry state
	v.entry = st.clone()
	v.entry.pc = nil
	env = v.contractEnv(v.con, v.params, v.entry, v.entry)
	for _, m := range v.con.modifies {
		v.frameTop = append(v.frameTop, modEntries(env, m.e)...)
	}
	for k, t := range v.entry.heap {
		if _, ok := st.heap[k]; !ok {
			st.heap[k] = t
		}
	}
	v.pool()
	// vacuity guard
	o := v.obl("vacuity", "precondition-satisfiable", nil, "the precondition does not exclude every input", v.fn.Pos())
	o.Queries++
	o.Backend = "z3"
	if a := v.sess.prove(st.pc, tb.Bool(false), 2000, nil); a.res == "unsat" {
		o.OK = false
		o.Reason = "the precondition is contradictory"
	}
	returns := 0
	fr.ret = func(st *State, fr *Frame, res []Val) {
		if v.dry > 0 || v.silent > 0 {
			return
		}
		returns++
		v.atReturn(st, fr, res)
	}
	first := v.fn.Blocks[0]
	if isPkgInit(v.fn) {
		v.skip = initSkip(v.fn)
		first = v.initStart(st)
	}
	v.run(st, fr, first, 0)
	o2 := v.obl("vacuity", "some-path-returns", nil, "at least one path reaches a return", v.fn.Pos())
	o2.Queries++
	if returns == 0 {
		o2.OK = false
		o2.Reason = "no path returns"
	}
}

func mentions(e ast.Expr, names map[string]bool) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && names[id.Name] {
			r = true
		}
		return true
	})
	return r
}

func (v *Verifier) atReturn(st *State, fr *Frame, res []Val) {
	con := v.con
	env := v.contractEnv(con, v.params, st, v.entry)
	for i, n := range con.results {
		r := res[i]
		if r.ptr != nil {
			r = v.materialize(st, r)
		}
		env.vars[n] = r
	}
	if st.werr {
		v.check(st, "write-error", "write-error@return", []string{"C13"}, "does not return after a failed write", v.fn.Pos(), tb.Bool(false))
		return
	}
	wit := map[string]bool{}
	for _, w := range con.witness {
		wit[w.name] = true
	}
	var withW []Clause
	for _, e := range con.ensures {
		if len(wit) > 0 && mentions(e.e, wit) {
			withW = append(withW, e)
			continue
		}
		v.check(st.clone(), "postcondition", e.name, e.tags, e.src, v.fn.Pos(), env.evalBool(e.e))
	}
	if len(withW) == 0 {
		return
	}
	// try the values of integer variables as witness
	w := con.witness[0]
	type cd struct {
		name string
		val  *T
	}
	var cs []cd
	seen := map[*T]bool{}
	addC := func(n string, x Val) {
		if len(x.l) == 1 && x.l[0].sort == SInt && x.t != nil && !seen[x.l[0]] {
			if b, ok := x.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				seen[x.l[0]] = true
				cs = append(cs, cd{n, x.l[0]})
			}
		}
	}
	get := func(nm Named) Val {
		if nm.cell != nil {
			if nm.cell.typ == nil {
				return Val{}
			}
			return st.loadPtr(nm.cell)
		}
		return nm.val
	}
	hint := w.name
	if nm, ok := fr.names[hint]; ok {
		addC(hint, get(nm))
	}
	if nm, ok := fr.names["groupCount"]; ok {
		addC("groupCount", get(nm))
	}
	var ks []string
	for n := range fr.names {
		ks = append(ks, n)
	}
	sort.Strings(ks)
	for _, n := range ks {
		addC(n, get(fr.names[n]))
	}
	addC("1", intVal(tb.Int(1)))
	best := -1
	for i, c := range cs {
		ok := true
		e2 := env.with(w.name, intVal(c.val))
		for _, e := range withW {
			if v.prove(st, e2.evalBool(e.e), v.quickMs, i == 0).res != "unsat" {
				ok = false
				break
			}
		}
		if ok {
			best = i
			break
		}
	}
	if best < 0 {
		best = 0
	}
	e2 := env.with(w.name, intVal(cs[best].val))
	for _, e := range withW {
		v.check(st.clone(), "postcondition", e.name, e.tags, e.src+" {"+w.name+"="+cs[best].name+"}", v.fn.Pos(), e2.evalBool(e.e))
	}
}

// ---- lemmas

func (lm *Lemma) formula(st *State) (vars []*T, pre, post *T, trigs []*T) {
	env := &Env{pkg: lm.pkg, vars: map[string]Val{}, st: st, depth: 10}
	for i, p := range lm.params {
		ty, so := specType(lm.pkg, p.typ)
		if so == "" {
			sErr("lemma parameter %s", p.name)
		}
		b := tb.BVar(fmt.Sprintf("l%d", i), so)
		vars = append(vars, b)
		env.vars[p.name] = Val{t: ty, l: []*T{b}}
	}
	var ps, qs []*T
	for _, c := range lm.requires {
		ps = append(ps, env.evalBool(c.e))
	}
	for _, c := range lm.ensures {
		qs = append(qs, env.evalBool(c.e))
	}
	for _, t := range lm.trigger {
		trigs = append(trigs, env.eval(t).one())
	}
	return vars, tb.And(ps...), tb.And(qs...), trigs
}

func heapRec() *State {
	return &State{heap: map[string]*T{}, cells: map[*Cell]Val{}, rec: &recorder{sorts: map[string]Sort{}}, alloc: tb.Var("hp!alloc", SInt)}
}

// axiom turns a lemma into a quantified fact.
func (lm *Lemma) axiom() *Axiom {
	st := heapRec()
	vars, pre, post, trigs := lm.formula(st)
	// heap arrays are universally quantified as well
	m := map[*T]*T{}
	for i, h := range st.rec.names {
		b := tb.BVar(fmt.Sprintf("lh%d", i), st.rec.sorts[h])
		m[tb.Var("hp!"+h, st.rec.sorts[h])] = b
		vars = append(vars, b)
	}
	pre, post = tb.Subst(pre, m), tb.Subst(post, m)
	var tg [][]*T
	if len(trigs) > 0 {
		var ts []*T
		for _, t := range trigs {
			ts = append(ts, tb.Subst(t, m))
		}
		tg = [][]*T{ts}
	}
	f := tb.Imp(pre, post)
	if len(vars) > 0 {
		f = tb.Forall(vars, tg, f)
	}
	ax := &Axiom{name: "lemma " + lm.name, f: f}
	if len(tg) > 0 {
		for _, t := range tg[0] {
			walkApps(t, func(a *T) { ax.on = append(ax.on, a.name) })
			break
		}
		if len(ax.on) > 1 {
			ax.on = ax.on[:1]
		}
	} else {
		walkApps(f, func(a *T) { ax.on = append(ax.on, a.name) })
	}
	return ax
}

func walkApps(t *T, f func(*T)) {
	if t.op == "app" {
		f(t)
	}
	for _, a := range t.args {
		walkApps(a, f)
	}
}

// installLemmas adds the lemmas before position n (all if n < 0) as axioms.
func installLemmas(n int) {
	for i, lm := range spec.lemmas {
		if n >= 0 && i >= n {
			return
		}
		if n < 0 && lm.local {
			continue
		}
		if ax := lm.tryAxiom(); ax != nil {
			ax.lemma = true
			axioms = append(axioms, ax)
		}
	}
}

// tryAxiom: nil if the lemma does not make sense for this source (it speaks of
// something that is no longer there); it is then neither used nor missed.
func (lm *Lemma) tryAxiom() (ax *Axiom) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(specErr); !ok {
				panic(e)
			}
			ax = nil
		}
	}()
	return lm.axiom()
}

// verifyLemma proves one lemma from the earlier ones.
func verifyLemma(idx int, opt Options) (rep *Report) {
	lm := spec.lemmas[idx]
	t0 := time.Now()
	rep = &Report{Fn: "lemma." + lm.name, Kind: "lemma"}
	v := &Verifier{sess: newSession(), key: rep.Fn, oblBy: map[string]*Obl{}, quickMs: opt.quick, hardMs: opt.hard, params: map[string]Val{}}
	defer v.sess.close()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(specErr); ok {
				rep.Skipped = fmt.Sprint(e)
			}
			o := v.obl("reach", "lemma", lm.tags, "", token.NoPos)
			o.OK = false
			o.Reason = fmt.Sprint(e)
			if debugOn {
				fmt.Printf("%v\n%s\n", e, debug.Stack())
			}
		}
		rep.Obls = v.obls
		rep.OK = true
		for _, o := range v.obls {
			rep.OK = rep.OK && o.OK
		}
		rep.Queries = stats.queries
		rep.Solver = stats.solverTime.Seconds()
		rep.Wall = time.Since(t0).Seconds()
		rep.Backends = stats.byBackend
	}()
	var base []*Axiom
	for _, ax := range axioms {
		if !ax.lemma {
			base = append(base, ax)
		}
	}
	axioms = base
	stats = Stats{byBackend: map[string]int{}}
	installLemmas(idx)
	st := &State{heap: map[string]*T{}, cells: map[*Cell]Val{}, alloc: tb.Var("alloc@0", SInt)}
	env := &Env{pkg: lm.pkg, vars: map[string]Val{}, st: st}
	for _, p := range lm.params {
		ty, so := specType(lm.pkg, p.typ)
		env.vars[p.name] = Val{t: ty, l: []*T{tb.Var("lv:"+p.name, so)}}
	}
	for _, c := range lm.requires {
		st.assume(env.evalBool(c.e))
	}
	for _, h := range lm.hints {
		x := env.eval(h)
		d := tb.Decl("hint!"+string(x.l[0].sort), []Sort{x.l[0].sort}, SBool)
		st.assume(tb.App(d, x.l[0]))
	}
	if lm.induct != "" {
		// induction hypothesis: the lemma for smaller values of the expression
		ms := env.eval(parseE(lm.induct, lm.name)).one()
		e2 := &Env{pkg: lm.pkg, vars: map[string]Val{}, st: st, depth: 10}
		var vars []*T
		for i, p := range lm.params {
			ty, so := specType(lm.pkg, p.typ)
			b := tb.BVar(fmt.Sprintf("l%d", i), so)
			vars = append(vars, b)
			e2.vars[p.name] = Val{t: ty, l: []*T{b}}
		}
		m2 := e2.eval(parseE(lm.induct, lm.name)).one()
		pre := []*T{tb.Le(tb.Int(0), m2), tb.Lt(m2, ms)}
		for _, c := range lm.requires {
			pre = append(pre, e2.evalBool(c.e))
		}
		var post []*T
		for _, c := range lm.ensures {
			post = append(post, e2.evalBool(c.e))
		}
		var tg [][]*T
		if len(lm.trigger) > 0 {
			var ts []*T
			for _, t := range lm.trigger {
				ts = append(ts, e2.eval(t).one())
			}
			tg = [][]*T{ts}
		}
		st.assume(tb.Forall(vars, tg, tb.Imp(tb.And(pre...), tb.And(post...))))
	}
	for i, c := range lm.ensures {
		v.check(st.clone(), "lemma", fmt.Sprintf("%s#%d", lm.name, i+1), lm.tags, c.src, token.NoPos, env.evalBool(c.e))
	}
	return
}
