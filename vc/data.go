package main

import (
	"bufio"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Constant data: package-level tables, maps and patterns that nothing changes.
// Their addresses are negative numbers.

type constTab struct {
	ref  int64
	name string
	c    *constVal
	et   types.Type
	// intervals by leaf 0 / leaf 1, and the third leaf if there is one
	rows [][]int64
	vals map[int64]Val // elements that are not plain integers
	ok   bool // sorted, disjoint, non-empty intervals
}

var (
	frozenVals = map[*ssa.Global]Val{}
	constTabs  = map[int64]*constTab{}
	frozenMaps = map[int64]*constVal{}
	frozenRes  = map[int64]string{} // regexp patterns
	nextConst  = int64(-4000)
	reRefs     = map[string]int64{}
)

func newConstRef() int64 { nextConst--; return nextConst }

// normRE: a normal form of a pattern.
func normRE(p string) string {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return "bad:" + p
	}
	return dropCap(re).Simplify().String()
}

func dropCap(re *syntax.Regexp) *syntax.Regexp { return re }

const (
	refAnsi = "[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]"
	refLoc  = `^[a-z][a-z][a-z]?(?:_[A-Z][A-Z])?\.(.+)`
)

func reRef(p string) int64 {
	if len(reRefs) == 0 {
		for i, q := range []string{refAnsi, refLoc} {
			reRefs[normRE(q)] = int64(-1001 - i)
			frozenRes[int64(-1001-i)] = q
		}
	}
	n := normRE(p)
	if r, ok := reRefs[n]; ok {
		return r
	}
	r := newConstRef()
	reRefs[n] = r
	frozenRes[r] = p
	return r
}

func minRunes(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minRunes(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min * minRunes(re.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range re.Sub {
			n += minRunes(s)
		}
		return n
	case syntax.OpAlternate:
		n := -1
		for _, s := range re.Sub {
			if m := minRunes(s); n < 0 || m < n {
				n = m
			}
		}
		return n
	}
	return 0
}

// frozenVal is the value of a constant package-level variable.
func frozenVal(g *ssa.Global, c *constVal) Val {
	if v, ok := frozenVals[g]; ok {
		return v
	}
	v := constToVal(g.Name(), c.typ, c)
	frozenVals[g] = v
	return v
}

func constToVal(name string, t types.Type, c *constVal) Val {
	if c.call != "" {
		if strings.HasSuffix(c.call, "regexp.MustCompile") && len(c.args) == 1 && c.args[0].c != nil {
			return mkVal(t, tb.Int(reRef(constant.StringVal(c.args[0].c))))
		}
		l := layout(t)
		if len(l) != 1 || l[0].sort != SInt {
			unsupported("initializer %s of %s", c.call, name)
		}
		return mkVal(t, tb.Int(newConstRef()))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if c.elem == nil && c.c == nil && len(c.keys) == 0 {
			n := int64(len(c.elem))
			if n == 0 {
				z := tb.Int(0)
				return mkVal(t, z, z, z, z)
			}
		}
		ref := newConstRef()
		ct := &constTab{ref: ref, name: name, c: c, et: u.Elem()}
		constTabs[ref] = ct
		ct.fill()
		n := tb.Int(int64(len(c.elem)))
		return mkVal(t, tb.Int(ref), tb.Int(0), n, n)
	case *types.Map:
		ref := newConstRef()
		frozenMaps[ref] = c
		return mkVal(t, tb.Int(ref))
	case *types.Basic:
		cc := c.c
		if u.Info()&types.IsInteger != 0 {
			cc = constant.ToInt(cc)
		}
		return mkVal(t, constTerm(t, cc))
	case *types.Struct:
		r := Val{t: t}
		for i := 0; i < u.NumFields(); i++ {
			r.l = append(r.l, constToVal(name, u.Field(i).Type(), c.elem[i]).l...)
		}
		return r
	case *types.Array:
		r := Val{t: t}
		for i := range c.elem {
			r.l = append(r.l, constToVal(name, u.Elem(), c.elem[i]).l...)
		}
		return r
	}
	unsupported("constant of type %s", t)
	return Val{}
}

func (ct *constTab) fill() {
	for _, l := range layout(ct.et) {
		if l.sort != SInt {
			return
		}
	}
	n := len(layout(ct.et))
	for _, e := range ct.c.elem {
		v := constToVal(ct.name, ct.et, e)
		row := make([]int64, n)
		for i := range row {
			row[i] = v.l[i].ival
		}
		ct.rows = append(ct.rows, row)
	}
	if n < 2 {
		return
	}
	ct.ok = len(ct.rows) > 0
	for i, r := range ct.rows {
		if r[0] > r[1] || i > 0 && ct.rows[i-1][1] >= r[0] {
			ct.ok = false
		}
	}
}

func heapRoot(t *T) string {
	for {
		switch t.op {
		case "store":
			t = t.args[0]
		case "ite":
			t = t.args[1]
		case "var":
			n := t.name
			if strings.HasPrefix(n, "hp!") {
				return n[3:]
			}
			if i := strings.LastIndexAny(n, "@!"); i > 0 {
				n = n[:i]
			}
			return n
		default:
			return ""
		}
	}
}

func init() {
	selHook = func(a, i *T) *T {
		if i.isInt() && i.ival < 0 {
			ct, ok := constTabs[i.ival]
			if !ok {
				return nil
			}
			h := heapRoot(a)
			if !strings.HasPrefix(h, "E:") {
				return nil
			}
			for k := range layout(ct.et) {
				if n, _ := elemHeap(ct.et, k); n == h {
					_, vs := a.sort.split()
					return tb.Var(fmt.Sprintf("tab!%s#%d!t%d", ct.name, k, -i.ival), vs)
				}
			}
			return nil
		}
		if a.op == "var" && i.isInt() && strings.HasPrefix(a.name, "tab!") {
			ct, k := tabOf(a)
			if ct != nil && i.ival >= 0 && int(i.ival) < len(ct.rows) {
				return tb.Int(ct.rows[i.ival][k])
			}
			if ct != nil && ct.rows == nil && i.ival >= 0 && int(i.ival) < len(ct.c.elem) {
				if _, ok := ct.vals[i.ival]; !ok {
					if ct.vals == nil {
						ct.vals = map[int64]Val{}
					}
					ct.vals[i.ival] = constToVal(ct.name, ct.et, ct.c.elem[i.ival])
				}
				return ct.vals[i.ival].l[k]
			}
		}
		return nil
	}
}

func tabOf(a *T) (*constTab, int) {
	if a.op != "var" || !strings.HasPrefix(a.name, "tab!") {
		return nil, 0
	}
	i := strings.LastIndex(a.name, "!t")
	j := strings.LastIndexByte(a.name, '#')
	n, _ := strconv.ParseInt(a.name[i+2:], 10, 64)
	k, _ := strconv.Atoi(a.name[j+1 : i])
	return constTabs[-n], k
}

func frozenMapOf(v Val) *constVal {
	if len(v.l) == 1 && v.l[0].isInt() {
		return frozenMaps[v.l[0].ival]
	}
	return nil
}

// lookupFrozen: a case distinction over the keys of a constant map.
func lookupFrozen(cm *constVal, mt *types.Map, key Val) (Val, *T) {
	val := zeroVal(mt.Elem())
	ok := tb.Bool(false)
	for i := len(cm.keys) - 1; i >= 0; i-- {
		kv := constToVal("key", mt.Key(), cm.keys[i])
		ev := constToVal("val", mt.Elem(), cm.elem[i])
		var eqs []*T
		for j := range kv.l {
			eqs = append(eqs, tb.Eq(key.l[j], kv.l[j]))
		}
		c := tb.And(eqs...)
		if c.isFalse() {
			continue
		}
		for j := range val.l {
			val.l[j] = tb.Ite(c, ev.l[j], val.l[j])
		}
		ok = tb.Or(c, ok)
	}
	return val, ok
}

// ---- references

type span struct {
	lo, hi int64
	cls    string
}

// refData: reference functions on code points, from /verif/spec/*.ref.
var refData = map[string][]span{}

func loadRefs(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.ref"))
	for _, f := range fs {
		fh, err := os.Open(f)
		if err != nil {
			return err
		}
		sc := bufio.NewScanner(fh)
		for sc.Scan() {
			l := sc.Text()
			if l == "" || l[0] == '#' {
				continue
			}
			p := strings.Fields(l)
			lo, e1 := strconv.ParseInt(p[1], 16, 64)
			hi, e2 := strconv.ParseInt(p[2], 16, 64)
			if e1 != nil || e2 != nil {
				return fmt.Errorf("%s: %s", f, l)
			}
			c := "1"
			if len(p) > 3 {
				c = p[3]
			}
			refData[p[0]] = append(refData[p[0]], span{lo, hi, c})
		}
		fh.Close()
	}
	for k := range refData {
		s := refData[k]
		sort.Slice(s, func(i, j int) bool { return s[i].lo < s[j].lo })
		for i := 1; i < len(s); i++ {
			if s[i].lo <= s[i-1].hi {
				return fmt.Errorf("reference %s overlaps at %x", k, s[i].lo)
			}
		}
	}
	return nil
}

// normSpans merges neighbours of the same class and drops class "".
func normSpans(s []span) []span {
	var out []span
	for _, x := range s {
		if x.cls == "" {
			continue
		}
		if n := len(out); n > 0 && out[n-1].hi+1 == x.lo && out[n-1].cls == x.cls {
			out[n-1].hi = x.hi
			continue
		}
		out = append(out, x)
	}
	return out
}

// diffSpans returns code points where the two functions differ.
func diffSpans(a, b []span) []int64 {
	a, b = normSpans(a), normSpans(b)
	at := func(s []span, x int64) string {
		i := sort.Search(len(s), func(i int) bool { return s[i].hi >= x })
		if i < len(s) && s[i].lo <= x {
			return s[i].cls
		}
		return ""
	}
	var pts []int64
	for _, s := range [][]span{a, b} {
		for _, x := range s {
			pts = append(pts, x.lo-1, x.lo, x.hi, x.hi+1)
		}
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i] < pts[j] })
	var out []int64
	for i, p := range pts {
		if i > 0 && pts[i-1] == p {
			continue
		}
		if at(a, p) != at(b, p) {
			out = append(out, p)
		}
	}
	return out
}

func prConst(name string) (int64, bool) {
	tp := world.tpkgs["uniseg"]
	if tp == nil {
		return 0, false
	}
	c, ok := tp.Scope().Lookup("pr" + name).(*types.Const)
	if !ok {
		return 0, false
	}
	v, ok := constant.Int64Val(constant.ToInt(c.Val()))
	return v, ok
}

// TabFact is the outcome of comparing a constant table with a reference.
type TabFact struct {
	Table, Ref string
	Equal      bool
	Diff       []int64
}

var tabFacts = map[string]*TabFact{}

// compare3: does the (lo, hi, class) table, seen through classes, equal a reference?
func (ct *constTab) compare3(ref string, cls func(int64) string) bool {
	key := ct.name + "~" + ref
	if f, ok := tabFacts[key]; ok {
		return f.Equal
	}
	f := &TabFact{Table: ct.name, Ref: ref}
	tabFacts[key] = f
	if !ct.ok || len(ct.rows[0]) < 3 {
		return false
	}
	var s []span
	for _, r := range ct.rows {
		s = append(s, span{r[0], r[1], cls(r[2])})
	}
	f.Diff = diffSpans(s, refData[ref])
	f.Equal = len(f.Diff) == 0
	return f.Equal
}

func classNamer(names ...string) func(int64) string {
	m := map[int64]string{}
	for _, n := range names {
		if v, ok := prConst(n); ok {
			m[v] = n
		}
	}
	return func(v int64) string {
		if v == 0 {
			return ""
		}
		if n, ok := m[v]; ok {
			return n
		}
		return fmt.Sprintf("?%d", v)
	}
}

var gcbNames = []string{"Prepend", "CR", "LF", "Control", "Extend", "RegionalIndicator", "SpacingMark", "L", "V", "T", "LV", "LVT", "ZWJ", "ExtendedPictographic"}

// intervalCond: r lies in one of the rows.
func intervalCond(rows [][]int64, r *T) *T {
	var alts []*T
	for i := 0; i < len(rows); i++ {
		lo, hi := rows[i][0], rows[i][1]
		for i+1 < len(rows) && rows[i+1][0] == hi+1 {
			i++
			hi = rows[i][1]
		}
		alts = append(alts, tb.And(tb.Le(tb.Int(lo), r), tb.Le(r, tb.Int(hi))))
	}
	return tb.Or(alts...)
}

// installData gives tabOK, inTab and ps their meaning on constant tables.
func installData() {
	wrap := func(name string, f func(app *T) *T) {
		fn, ok := spec.fns[name]
		if !ok {
			return
		}
		fn.compile()
		dn := fn.decl.name
		old := unfolders[dn]
		unfolders[dn] = func(app *T) *T {
			if ct, _ := tabOf(app.args[0]); ct != nil {
				return f(app)
			}
			if old != nil {
				return old(app)
			}
			return nil
		}
	}
	whole := func(ct *constTab, o, n *T) bool {
		return o.isInt() && o.ival == 0 && n.isInt() && n.ival == int64(len(ct.rows))
	}
	wrap("tabOK", func(app *T) *T {
		ct, _ := tabOf(app.args[0])
		if !whole(ct, app.args[2], app.args[3]) {
			return nil
		}
		return tb.Eq(app, tb.Bool(ct.ok))
	})
	wrap("inTab", func(app *T) *T {
		ct, _ := tabOf(app.args[0])
		if !whole(ct, app.args[2], app.args[3]) || !ct.ok {
			return nil
		}
		return tb.Eq(app, intervalCond(ct.rows, app.args[4]))
	})
	wrap("ps", func(app *T) *T {
		ct, _ := tabOf(app.args[0])
		if !whole(ct, app.args[3], app.args[4]) || !ct.ok {
			return nil
		}
		r := app.args[5]
		var fs []*T
		if ct.compare3("gcb", classNamer(gcbNames...)) {
			g := spec.fns["gcb"]
			g.compile()
			fs = append(fs, tb.Eq(app, tb.App(g.decl, r)))
		}
		is := func(names ...string) (func(int64) string, *T) {
			m := map[int64]bool{}
			var alts []*T
			for _, n := range names {
				if v, ok := prConst(n); ok {
					m[v] = true
					alts = append(alts, tb.Eq(app, tb.Int(v)))
				}
			}
			return func(v int64) string {
				if m[v] {
					return "1"
				}
				return ""
			}, tb.Or(alts...)
		}
		if c, t := is("W", "F"); ct.compare3("wide", c) {
			g := spec.fns["wide"]
			g.compile()
			fs = append(fs, tb.Eq(t, tb.App(g.decl, r)))
		}
		if c, t := is("EmojiPresentation"); ct.compare3("emo", c) {
			g := spec.fns["emo"]
			g.compile()
			fs = append(fs, tb.Eq(t, tb.App(g.decl, r)))
		}
		// the value is one of the classes in the table, or 0
		cl := map[int64]bool{0: true}
		for _, row := range ct.rows {
			cl[row[2]] = true
		}
		var ks []int64
		for k := range cl {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		var alts []*T
		for _, k := range ks {
			alts = append(alts, tb.Eq(app, tb.Int(k)))
		}
		fs = append(fs, tb.Or(alts...))
		return tb.And(fs...)
	})
	// reference sets on a single code point
	for _, n := range []string{"rwNonprint", "rwCombining", "rwDouble", "rwAmbiguous", "rwNarrow", "rwEmoji"} {
		fn, ok := spec.fns[n]
		if !ok {
			continue
		}
		fn.compile()
		ref := refData[n]
		var rows [][]int64
		for _, s := range ref {
			rows = append(rows, []int64{s.lo, s.hi})
		}
		unfolders[fn.decl.name] = func(app *T) *T { return tb.Eq(app, intervalCond(rows, app.args[0])) }
	}
	// gcb takes the values of the class constants
	if fn, ok := spec.fns["gcb"]; ok {
		fn.compile()
		groundHks[fn.decl.name] = append(groundHks[fn.decl.name], func(app *T) *T {
			alts := []*T{tb.Eq(app, tb.Int(0))}
			for _, n := range gcbNames {
				if v, ok := prConst(n); ok {
					alts = append(alts, tb.Eq(app, tb.Int(v)))
				}
			}
			fs := []*T{tb.Or(alts...)}
			if app.args[0].isInt() {
				fs = append(fs, tb.Eq(app, tb.Int(gcbAt(app.args[0].ival))))
			}
			// classes of the variation selectors
			for _, vs := range []int64{0xfe0e, 0xfe0f} {
				fs = append(fs, tb.Imp(tb.Eq(app.args[0], tb.Int(vs)), tb.Eq(app, tb.Int(gcbAt(vs)))))
			}
			return tb.And(fs...)
		})
	}
	installVisible()
	// facts about patterns
	for _, n := range []string{"reLo"} {
		fn, ok := spec.fns[n]
		if !ok {
			continue
		}
		fn.compile()
		hi, fnd := spec.fns["reHi"], spec.fns["reFound"]
		hi.compile()
		fnd.compile()
		f := func(app *T) *T {
			re, s := app.args[0], app.args[1]
			if !re.isInt() {
				return nil
			}
			p, ok := frozenRes[re.ival]
			if !ok {
				return nil
			}
			pr, err := syntax.Parse(p, syntax.Perl)
			if err != nil {
				return nil
			}
			lo, h := tb.App(fn.decl, re, s), tb.App(hi.decl, re, s)
			m := int64(minRunes(pr))
			fs := []*T{tb.Le(tb.AddC(lo, m), h)}
			if m > 0 {
				fs = append(fs, tb.Le(tb.Int(m), tb.App(dRc(), Ssub(s, lo, h))))
			}
			return tb.Imp(tb.App(fnd.decl, re, s), tb.And(fs...))
		}
		groundHks[fn.decl.name] = append(groundHks[fn.decl.name], f)
		reRef(refAnsi)
		for _, r := range []int64{-1001, -1002} {
			x := tb.BVar("rs", SStr)
			app := tb.App(fn.decl, tb.Int(r), x)
			fd := tb.App(fnd.decl, tb.Int(r), x)
			in := tb.Imp(fd, tb.And(tb.Le(tb.Int(0), app), tb.Le(tb.App(hi.decl, tb.Int(r), x), tb.App(dSlen(), x))))
			addAxiom(fmt.Sprintf("pattern%d", r), tb.Forall([]*T{x}, [][]*T{{fd}}, tb.And(in, f(app))), fnd.decl.name)
		}
	}
	if fn, ok := spec.fns["reGroups"]; ok {
		fn.compile()
		groundHks[fn.decl.name] = append(groundHks[fn.decl.name], func(app *T) *T {
			re := app.args[0]
			if !re.isInt() {
				return nil
			}
			p, ok := frozenRes[re.ival]
			if !ok {
				return nil
			}
			pr, err := syntax.Parse(p, syntax.Perl)
			if err != nil {
				return nil
			}
			return tb.Eq(app, tb.Int(int64(pr.MaxCap())))
		})
	}
}

// installVisible: what the reference data and the pattern of escape sequences
// say about printable ASCII characters and introducers.
func installVisible() {
	d := func(n string) *FnDecl {
		f, ok := spec.fns[n]
		if !ok {
			return nil
		}
		f.compile()
		return f.decl
	}
	for _, n := range []string{"asc", "esc", "ansiShape", "runeBd", "vq", "gcb", "rwNonprint", "rwCombining", "reFound", "reLo", "reHi"} {
		if d(n) == nil {
			return
		}
	}
	in := func(set string, r int64) bool {
		for _, x := range refData[set] {
			if x.lo <= r && r <= x.hi {
				return true
			}
		}
		return false
	}
	printable := true
	for r := int64(32); r <= 126; r++ {
		printable = printable && gcbAt(r) == 0 && !in("gcb", r) && !in("rwNonprint", r) && !in("rwCombining", r)
	}
	groundHks[d("asc").name] = append(groundHks[d("asc").name], func(app *T) *T {
		r := app.args[0]
		if !printable {
			return nil
		}
		return tb.Imp(app, tb.And(tb.Eq(tb.App(d("gcb"), r), tb.Int(0)), tb.Not(tb.App(d("rwNonprint"), r)), tb.Not(tb.App(d("rwCombining"), r))))
	})
	ctl, ok := prConst("Control")
	groundHks[d("esc").name] = append(groundHks[d("esc").name], func(app *T) *T {
		if !ok || gcbAt(27) != ctl || gcbAt(155) != ctl {
			return nil
		}
		return tb.Imp(app, tb.Eq(tb.App(d("gcb"), app.args[0]), tb.Int(ctl)))
	})
	// an ASCII byte is a code point
	s := tb.BVar("s", SStr)
	ch := tb.App(dSat(), s, tb.Int(0))
	addAxiom("dr-ascii", tb.Forall([]*T{s}, [][]*T{{tb.App(dDl(), s)}}, tb.Imp(tb.And(tb.Lt(tb.Int(0), tb.App(dSlen(), s)), tb.Lt(ch, tb.Int(128))),
		tb.And(tb.Eq(tb.App(dDl(), s), tb.Int(1)), tb.Eq(tb.App(dDr(), s), ch)))), d("vq").name)
	groundHks[d("ansiShape").name] = append(groundHks[d("ansiShape").name], func(app *T) *T {
		p, err := syntax.Parse(refAnsi, syntax.Perl)
		if err != nil || !matchShape(p) {
			return nil
		}
		x, re := app.args[0], tb.Int(-1001)
		lo, hi := tb.App(d("reLo"), re, x), tb.App(d("reHi"), re, x)
		u := Ssub(x, lo, Slen(x))
		j := tb.BVar("j", SInt)
		b := tb.App(dSat(), x, j)
		from := tb.Add(lo, tb.App(dDl(), u))
		return tb.Imp(tb.App(d("reFound"), re, x), tb.And(
			tb.App(d("runeBd"), x, lo), tb.App(d("esc"), tb.App(dDr(), u)), tb.Le(from, hi),
			tb.Forall([]*T{j}, [][]*T{{b}}, tb.Imp(tb.And(tb.Le(from, j), tb.Lt(j, hi)), tb.And(tb.Le(tb.Int(32), b), tb.Le(b, tb.Int(126)))))))
	})
}

// matchShape: a match is an introducer followed by printable ASCII characters.
func matchShape(re *syntax.Regexp) bool {
	if re.Op != syntax.OpConcat || len(re.Sub) < 2 || re.Sub[0].Op != syntax.OpCharClass {
		return false
	}
	ok := func(rs []rune, f func(rune) bool) bool {
		for i := 0; i+1 < len(rs); i += 2 {
			for r := rs[i]; r <= rs[i+1]; r++ {
				if !f(r) {
					return false
				}
			}
		}
		return true
	}
	if !ok(re.Sub[0].Rune, func(r rune) bool { return r == 27 || r == 155 }) {
		return false
	}
	asc := func(r rune) bool { return 32 <= r && r <= 126 }
	var rest func(r *syntax.Regexp) bool
	rest = func(r *syntax.Regexp) bool {
		switch r.Op {
		case syntax.OpLiteral:
			for _, c := range r.Rune {
				if !asc(c) || r.Flags&syntax.FoldCase != 0 {
					return false
				}
			}
			return true
		case syntax.OpCharClass:
			return ok(r.Rune, asc)
		case syntax.OpCapture, syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat, syntax.OpConcat, syntax.OpAlternate:
			for _, s := range r.Sub {
				if !rest(s) {
					return false
				}
			}
			return true
		case syntax.OpEmptyMatch:
			return true
		}
		return false
	}
	for _, s := range re.Sub[1:] {
		if !rest(s) {
			return false
		}
	}
	return true
}

func gcbAt(r int64) int64 {
	s := refData["gcb"]
	i := sort.Search(len(s), func(i int) bool { return s[i].hi >= r })
	if i < len(s) && s[i].lo <= r {
		v, _ := prConst(s[i].cls)
		return v
	}
	return 0
}
