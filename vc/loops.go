package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type modH struct {
	whole bool
	refs  []*T
	fresh bool
}

// LoopCtx is an active loop on the current path.
type LoopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	probe  bool
	back   func(st *State, fr *Frame, prev *ssa.BasicBlock)

	entry  *State
	fe     *Frame
	birth  int
	heaps  map[string]*modH
	cells  map[*Cell]bool
	allocs bool
	grown  bool
	phis   []*ssa.Phi
	name   string
	horder []string
	hphi   map[*ssa.Phi]Val
	iter   *T // rounds made before this one, in the state at hand
	unit   *ssa.Phi
}

// stepOf: what the phi grows by in every round, if that does not change.
func (c *LoopCtx) stepOf(p *ssa.Phi) (ssa.Value, bool) {
	var step ssa.Value
	for i, e := range p.Edges {
		if !c.blocks[p.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != p {
			return nil, false
		}
		y := b.Y
		if ins, is := y.(ssa.Instruction); is && c.blocks[ins.Block()] {
			return nil, false
		}
		if step != nil && step != y && !(isConst(step) && isConst(y) && step.(*ssa.Const).Value.ExactString() == y.(*ssa.Const).Value.ExactString()) {
			return nil, false
		}
		step = y
	}
	return step, step != nil
}

// findUnit: a variable that counts the rounds.
func (c *LoopCtx) findUnit() {
	for _, p := range c.phis {
		if _, _, ok := intBits(p.Type()); !ok {
			continue
		}
		if s, ok := c.stepOf(p); ok && isConst(s) && s.(*ssa.Const).Int64() == 1 {
			c.unit = p
			return
		}
	}
}

// loops active on a state, for noting stores: kept beside the state
func (s *State) loopList() []*LoopCtx {
	if s.loopsp == nil {
		return nil
	}
	return s.loopsp
}

func (s *State) dropLoop(l *LoopCtx) {
	var n []*LoopCtx
	for _, x := range s.loopsp {
		if x != l {
			n = append(n, x)
		}
	}
	s.loopsp = n
}

func (s *State) noteStore(v *Verifier, heap string, ref *T, cell *Cell) {
	for _, c := range s.loopsp {
		c.note(v, s, heap, ref, cell)
	}
}

func (s *State) noteAlloc() {
	for _, c := range s.loopsp {
		if !c.allocs {
			c.allocs = true
			c.grown = true
		}
	}
}

// bornBefore: all variables of t existed when the loop was entered.
func bornBefore(t *T, n int) bool {
	ok := true
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if !ok || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" {
			if i := strings.LastIndexByte(t.name, '!'); i >= 0 && !isLit(t) {
				k := 0
				if _, err := fmt.Sscanf(t.name[i+1:], "%d", &k); err == nil && k > n {
					ok = false
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return ok
}

func (c *LoopCtx) note(v *Verifier, st *State, heap string, ref *T, cell *Cell) {
	if cell != nil {
		if _, ok := c.entry.cells[cell]; ok && !c.cells[cell] {
			c.cells[cell] = true
			c.grown = true
		}
		return
	}
	m := c.heaps[heap]
	if m == nil {
		m = &modH{}
		c.heaps[heap] = m
		c.horder = append(c.horder, heap)
		c.grown = true
	}
	if m.whole {
		return
	}
	if ref == nil {
		m.whole = true
		c.grown = true
		return
	}
	for _, r := range m.refs {
		if r == ref {
			return
		}
	}
	if bornBefore(ref, c.birth) {
		m.refs = append(m.refs, ref)
		c.grown = true
		return
	}
	if ref.sort != SInt {
		m.whole = true
		c.grown = true
		return
	}
	if l := tb.toLin(ref); len(l.m) == 1 {
		for x := range l.m {
			if x.op == "var" && strings.HasPrefix(x.name, "alloc!") {
				if !m.fresh {
					m.fresh = true
					c.grown = true
				}
				return
			}
		}
	}
	// a leaf of one of this loop's phis: its initial value is likely the only one
	for _, p := range c.phis {
		for i, l := range st.phiLeaf(c, p) {
			if l == ref {
				init := c.fe.regs[p].l[i]
				found := false
				for _, r := range m.refs {
					if r == init {
						found = true
					}
				}
				if !found && bornBefore(init, c.birth) {
					m.refs = append(m.refs, init)
					c.grown = true
				}
			}
		}
	}
	if v.dry > 0 {
		return
	}
	var alts []*T
	for _, r := range m.refs {
		alts = append(alts, tb.Eq(r, ref))
	}
	if v.prove(st, tb.Or(alts...), 1000, false).res == "unsat" {
		return
	}
	alts = append(alts, tb.Le(c.entry.alloc, ref))
	if v.prove(st, tb.Or(alts...), 1000, false).res == "unsat" {
		if !m.fresh {
			m.fresh = true
			c.grown = true
		}
		return
	}
	m.whole = true
	c.grown = true
}

func (s *State) phiLeaf(c *LoopCtx, p *ssa.Phi) []*T {
	return c.hphi[p].l
}

// havoc makes an arbitrary state at the loop header.
func (v *Verifier) havoc(c *LoopCtx) (*State, *Frame) {
	h, f := c.entry.clone(), c.fe.clone()
	c.hphi = map[*ssa.Phi]Val{}
	if c.allocs {
		a := freshVar("alloc", SInt)
		h.assume(tb.Le(c.entry.alloc, a))
		h.alloc = a
	}
	for _, p := range c.phis {
		iv := c.fe.regs[p]
		if iv.ptr != nil || iv.clo != nil || iv.iter != nil {
			c.hphi[p] = iv
			continue
		}
		nv := Val{t: p.Type()}
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		for _, lf := range layout(p.Type()) {
			x := nm
			if lf.path != "" {
				x += "." + lf.path
			}
			nv.l = append(nv.l, freshVar(x, lf.sort))
		}
		h.assume(typeFacts(nv))
		h.assume(h.refFacts(nv))
		f.regs[p] = nv
		c.hphi[p] = nv
		if p.Comment != "" {
			f.names[p.Comment] = Named{val: nv, src: p}
		}
	}
	if c.unit != nil {
		c.iter = tb.Sub(f.regs[c.unit].one(), c.fe.regs[c.unit].one())
	} else {
		c.iter = freshVar("round", SInt)
		h.assume(tb.Le(tb.Int(0), c.iter))
	}
	names := append([]string{}, c.horder...)
	for _, n := range names {
		m := c.heaps[n]
		cur, ok := c.entry.heap[n]
		if !ok {
			cur = c.entry.get(n, heapSorts[n])
			h.heap[n] = cur
		}
		if m.whole {
			h.heap[n] = freshHeap(n)
			continue
		}
		ks, vs := heapSorts[n].split()
		if !m.fresh {
			t := cur
			for _, r := range m.refs {
				t = tb.Store(t, r, freshTyped(n, vs))
			}
			h.heap[n] = t
			continue
		}
		t := freshHeap(n)
		h.heap[n] = t
		b := tb.BVar("hr", ks)
		g := []*T{tb.Lt(b, c.entry.alloc)}
		for _, r := range m.refs {
			g = append(g, tb.Not(tb.Eq(b, r)))
		}
		h.assume(tb.Forall([]*T{b}, [][]*T{{tb.Select(t, b)}}, tb.Imp(tb.And(g...), tb.mk("=", SBool, tb.Select(t, b), tb.Select(cur, b)))))
	}
	var cs []*Cell
	for k := range c.cells {
		cs = append(cs, k)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, k := range cs {
		cur := c.entry.cells[k]
		if cur.ptr != nil || cur.clo != nil {
			unsupported("loop changes variable %s holding an address or closure", k.name)
		}
		nv := Val{t: cur.t, mth: cur.mth}
		for _, l := range cur.l {
			nv.l = append(nv.l, freshVar(k.name, l.sort))
		}
		h.assume(typeFacts(nv))
		h.assume(h.refFacts(nv))
		h.cells[k] = nv
	}
	h.loopsp = append(h.loopsp[:len(h.loopsp):len(h.loopsp)], c)
	f.loops = append(f.loops[:len(f.loops):len(f.loops)], c)
	return h, f
}

// freshTyped: an arbitrary element of a heap array, in the range of its type.
func freshTyped(heap string, s Sort) *T {
	t := freshVar(heap+".e", s)
	lf, ok := heapLeaf[heap]
	if !ok || typedHeap[t.name] {
		return t
	}
	typedHeap[t.name] = true
	if s == lf.sort {
		if f := rangeFact(lf, t); !f.isTrue() {
			addAxiom("type:"+t.name, f, t.name)
		}
		return t
	}
	k, vs := s.split()
	if vs == lf.sort {
		b := tb.BVar("q1", k)
		e := tb.Select(t, b)
		if f := rangeFact(lf, e); !f.isTrue() {
			addAxiom("type:"+t.name, tb.Forall([]*T{b}, [][]*T{{e}}, f), t.name)
		}
	}
	return t
}

// Cand is a candidate loop invariant (or measure): a formula that can be
// evaluated in any state at the loop header.
type Cand struct {
	desc string
	eval func(st *State, fr *Frame) *T
	dead bool
	auto bool
}

func (v *Verifier) concreteHeader(st *State, fr *Frame, b, prev *ssa.BasicBlock) bool {
	if fr.unroll[b] > 40 {
		return false
	}
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if _, ok := x.X.(*ssa.Alloc); !ok {
					return false
				}
			}
		case *ssa.Call:
			bi, ok := x.Common().Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	s, f := st.clone(), fr.clone()
	s.loopsp = nil
	v.dry++
	defer func() { v.dry-- }()
	v.setPhis(s, f, b, prev)
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.Call:
			f.regs[x] = v.lenOf(v.val(s, f, x.Common().Args[0]), x.Type())
		default:
			v.simple(s, f, ins)
		}
	}
	c := v.val(s, f, last.Cond).one()
	if bo, ok := last.Cond.(*ssa.BinOp); ok && c.isTrue() {
		// far from the end: not worth unrolling
		x, y := v.val(s, f, bo.X), v.val(s, f, bo.Y)
		if len(x.l) == 1 && len(y.l) == 1 && x.l[0].isInt() && y.l[0].isInt() {
			if d := x.l[0].ival - y.l[0].ival; d > 40 || d < -40 {
				return false
			}
		}
	}
	return c.isTrue() || c.isFalse()
}

func (v *Verifier) loopEntry(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	if v.concreteHeader(st, fr, b, prev) {
		fr.unroll[b]++
		v.setPhis(st, fr, b, prev)
		v.run(st, fr, b, 0)
		return
	}
	v.setPhis(st, fr, b, prev)
	c := &LoopCtx{header: b, blocks: fr.info.loops[b], entry: st, fe: fr, heaps: map[string]*modH{}, cells: map[*Cell]bool{}}
	c.name = fmt.Sprintf("loop@%s.%d", fnKey(fr.fn), b.Index)
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		c.phis = append(c.phis, p)
	}
	c.findUnit()
	c.birth = freshN
	c.entry = st.clone()
	c.fe = fr.clone()
	keepPhi := func(f *Frame, prev *ssa.BasicBlock) {
		for _, p := range c.phis {
			iv := c.fe.regs[p]
			if iv.ptr != nil || iv.clo != nil || iv.iter != nil {
				for i, q := range b.Preds {
					if q == prev {
						nv := f.regs[p.Edges[i]]
						if nv.ptr != iv.ptr || nv.clo != iv.clo {
							unsupported("loop changes an address or closure variable %s", p.Comment)
						}
					}
				}
			}
		}
	}
	// what the loop may change
	for round := 0; ; round++ {
		if round > 20 {
			unsupported("%s: what the loop changes does not settle", c.name)
		}
		freshN = c.birth
		c.grown = false
		h, f := v.havoc(c)
		c.probe = true
		c.back = func(*State, *Frame, *ssa.BasicBlock) {}
		v.dry++
		v.run(h, f, b, 0)
		v.dry--
		if !c.grown {
			break
		}
	}
	if v.dry > 0 {
		freshN = c.birth
		h, f := v.havoc(c)
		c.probe = false
		v.run(h, f, b, 0)
		return
	}
	v.loopsN++
	var live []*Cand
	var meas []*Cand
restart:
	live = nil
	cands, ms := v.candidates(c)
	tk := c.name + "|" + frameTrail(fr)
	if !v.share {
		tk += "|" + st.trail
	}
	if prev, ok := v.loopLive[tk]; ok {
		var nc []*Cand
		for _, k := range cands {
			if prev[k.desc] {
				nc = append(nc, k)
			}
		}
		cands = nc
	}
	{
		var ks []*Cand
		var gs []*T
		c.iter = tb.Int(0)
		for _, k := range cands {
			g := k.try(c.entry, c.fe)
			if g == nil {
				continue
			}
			stats.candTried++
			ks = append(ks, k)
			gs = append(gs, g)
		}
		for i, r := range v.proveMany(c.entry, gs, 1500) {
			if r.res == "unsat" {
				live = append(live, ks[i])
			} else if debugVerbose && !ks[i].auto {
				fmt.Printf("  %s: not initially: %s [%s]\n", c.name, ks[i].desc, r.res)
			}
		}
	}
	for round := 0; ; round++ {
		freshN = c.birth
		c.grown = false
		h, f := v.havoc(c)
		for _, k := range live {
			h.assume(k.try(h, f))
		}
		meas = nil
		type mm struct {
			k *Cand
			t *T
		}
		var mt []mm
		for _, m := range ms {
			if t := m.try(h, f); t != nil {
				mt = append(mt, mm{m, t})
				m.dead = false
			}
		}
		dropped := 0
		nback := 0
		c.probe = true
		c.back = func(s *State, f *Frame, p *ssa.BasicBlock) {
			nback++
			keepPhi(f, p)
			f = f.clone()
			v.setPhis(s, f, b, p)
			it := c.iter
			c.iter = tb.AddC(it, 1)
			defer func() { c.iter = it }()
			var gs []*T
			for _, k := range live {
				g := tb.Bool(true)
				if !k.dead {
					if x := k.try(s, f); x != nil {
						g = x
					}
				}
				gs = append(gs, g)
			}
			rs := v.proveMany(s, gs, 1500)
			for i, k := range live {
				if k.dead {
					continue
				}
				g := k.try(s, f)
				var r answer
				if g != nil {
					r = rs[i]
				}
				if g == nil || r.res != "unsat" {
					if g != nil && !k.auto {
						// try harder before giving up a human-written invariant
						if v.hardRetry(s, g) {
							continue
						}
					}
					k.dead = true
					dropped++
					stats.candDropped++
					if debugVerbose && !k.auto {
						fmt.Printf("  %s: not kept: %s\n", c.name, k.desc)
						if debugVerbose {
							fmt.Printf("     goal %s\n     path %s\n", clip(tb.Str(g), 800), pathStr(s.pc))
						}
					}
				}
			}
			ok := 0
			for _, m := range mt {
				if m.k.dead {
					continue
				}
				if ok > 0 {
					// one is enough on later back edges only if it survived all
				}
				t := m.k.try(s, f)
				if t == nil || v.prove(s, tb.And(tb.Lt(t, m.t), tb.Le(tb.Int(0), m.t)), 1500, false).res != "unsat" {
					m.k.dead = true
				} else {
					ok++
				}
			}
		}
		v.silent++
		v.run(h, f, b, 0)
		v.silent--
		if c.grown {
			for _, k := range cands {
				k.dead = false
			}
			goto restart
		}
		for _, m := range mt {
			if !m.k.dead {
				meas = append(meas, m.k)
			}
		}
		if dropped == 0 {
			if nback == 0 {
				meas = append(meas, &Cand{desc: "never repeats"})
			}
			break
		}
		var nl []*Cand
		for _, k := range live {
			if !k.dead {
				nl = append(nl, k)
			}
		}
		live = nl
	}
	lv := map[string]bool{}
	for _, k := range live {
		lv[k.desc] = true
	}
	v.loopLive[tk] = lv
	freshN = c.birth
	h, f := v.havoc(c)
	for _, k := range live {
		h.assume(k.try(h, f))
	}
	if v.silent == 0 {
		for _, k := range live {
			o := v.obl("invariant", c.name+":"+k.desc, nil, k.desc, token.NoPos)
			o.Queries += 2
			o.Backend = "z3-new"
		}
		mapRange := false
		for _, ins := range b.Instrs {
			if n, ok := ins.(*ssa.Next); ok {
				if it := f.regs[n.Iter].iter; it != nil {
					mapRange = true
				}
			}
		}
		o := v.obl("termination", c.name+":terminates", nil, "a measure decreases", b.Instrs[0].Pos())
		o.Queries++
		if len(meas) == 0 && !mapRange {
			o.OK = false
			o.Reason = "no measure found that decreases on every iteration and is bounded below"
			v.failed = true
			if debugOn {
				fmt.Printf("FAIL %s no measure\n", c.name)
			}
		} else if len(meas) > 0 {
			o.Text = "decreases " + meas[0].desc
			o.Backend = "z3-new"
		}
		if debugOn {
			fmt.Printf("  %s: %d invariants", c.name, len(live))
			for _, k := range live {
				if !k.auto {
					fmt.Printf("\n     | %s", k.desc)
				}
			}
			if len(meas) > 0 {
				fmt.Printf("\n     | measure %s", meas[0].desc)
			}
			fmt.Println()
		}
	}
	c.probe = false
	c.grown = false
	c.back = func(s *State, f *Frame, p *ssa.BasicBlock) {
		if s.werr && v.silent == 0 {
			v.check(s, "write-error", "write-error@"+c.name, []string{"C13"}, "no further write after a failed one", token.NoPos, tb.Bool(false))
		}
	}
	v.run(h, f, b, 0)
	if c.grown {
		unsupported("%s: what the loop changes did not settle", c.name)
	}
}

var debugVerbose bool

func frameTrail(fr *Frame) string {
	s := ""
	for f := fr; f != nil; f = f.parent {
		s += fnKey(f.fn) + ";"
	}
	return s
}

func (v *Verifier) hardRetry(s *State, g *T) bool {
	if v.hardMs == 0 {
		return false
	}
	save := v.hardMs
	if !v.wide {
		v.hardMs = 1
	}
	defer func() { v.hardMs = save }()
	t0 := time.Now()
	defer func() { prof("hardRetry", t0) }()
	return v.prove(s, g, 3000, true).res == "unsat"
}

func (k *Cand) try(st *State, fr *Frame) (r *T) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(specErr); ok {
				r = nil
				return
			}
			if _, ok := e.(unsup); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	return k.eval(st, fr)
}

// ---- candidates

type sel struct {
	desc string
	val  func(st *State, fr *Frame) Val
	typ  types.Type
}

// operand describes an integer operand of a comparison in terms available at
// the header: a phi plus a constant, or something fixed during the loop.
func (c *LoopCtx) operand(v *Verifier, x ssa.Value, depth int) (s sel, isPhi, ok bool) {
	s, isPhi, ok = c.operand0(v, x, depth)
	if !ok {
		s, isPhi, ok = c.pureSel(v, x)
	}
	return
}

func (c *LoopCtx) operand0(v *Verifier, x ssa.Value, depth int) (s sel, isPhi, ok bool) {
	if depth > 4 {
		return
	}
	if p, is := x.(*ssa.Phi); is && p.Block() == c.header {
		if _, _, isint := intBits(p.Type()); isint {
			return sel{desc: phiName(p), val: func(st *State, fr *Frame) Val { return fr.regs[p] }}, true, true
		}
		return
	}
	if k, is := x.(*ssa.Const); is {
		if k.Value == nil {
			return
		}
		if _, _, isint := intBits(k.Type()); !isint {
			return
		}
		return sel{desc: k.Value.String(), val: func(st *State, fr *Frame) Val { return v.val(st, fr, k) }}, false, true
	}
	ins, is := x.(ssa.Instruction)
	inside := is && c.blocks[ins.Block()]
	if !inside {
		if val, have := c.fe.regs[x]; have && len(val.l) == 1 && val.l[0].sort == SInt {
			return sel{desc: x.Name(), val: func(*State, *Frame) Val { return val }}, false, true
		}
		return
	}
	switch y := x.(type) {
	case *ssa.BinOp:
		if y.Op == token.ADD || y.Op == token.SUB {
			a, pa, ok1 := c.operand(v, y.X, depth+1)
			if kc, is := y.Y.(*ssa.Const); is && ok1 && kc.Value != nil {
				k := kc.Int64()
				if y.Op == token.SUB {
					k = -k
				}
				return sel{desc: fmt.Sprintf("%s+%d", a.desc, k), val: func(st *State, fr *Frame) Val { return intVal(tb.AddC(a.val(st, fr).one(), k)) }}, pa, true
			}
		}
	case *ssa.Convert:
		return c.operand(v, y.X, depth+1)
	case *ssa.Call:
		if bi, is := y.Common().Value.(*ssa.Builtin); is && bi.Name() == "len" {
			a := y.Common().Args[0]
			if ai, is := a.(ssa.Instruction); is && c.blocks[ai.Block()] {
				if p, is := a.(*ssa.Phi); is && p.Block() == c.header {
					return sel{desc: "len(" + phiName(p) + ")", val: func(st *State, fr *Frame) Val { return v.lenOf(fr.regs[p], types.Typ[types.Int]) }}, true, true
				}
				return
			}
			if val, have := c.fe.regs[a]; have {
				l := v.lenOf(val, types.Typ[types.Int])
				return sel{desc: "len(" + a.Name() + ")", val: func(*State, *Frame) Val { return l }}, false, true
			}
		}
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if val, have := c.fe.regs[y.X]; have && val.ptr != nil && val.ptr.kind == "cell" {
				if _, _, isint := intBits(y.Type()); isint {
					return sel{desc: "*" + val.ptr.cell.name, val: func(st *State, fr *Frame) Val { return st.loadPtr(val.ptr) }}, c.cells[val.ptr.cell], true
				}
			}
		}
	}
	return
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (v *Verifier) candidates(c *LoopCtx) (cands, meas []*Cand) {
	add := func(desc string, f func(st *State, fr *Frame) *T) {
		cands = append(cands, &Cand{desc: desc, eval: f, auto: true})
	}
	addM := func(desc string, f func(st *State, fr *Frame) *T) {
		meas = append(meas, &Cand{desc: desc, eval: f, auto: true})
	}
	if _, get := c.scope(); true {
		if p, ok := get("rangepos"); ok {
			if x, ok := get("range!str"); ok {
				add("position in the string", func(st *State, fr *Frame) *T {
					i := p.val(st, fr).one()
					return tb.And(tb.Le(tb.Int(0), i), tb.Le(i, Slen(x.val(st, fr).one())))
				})
			}
		}
	}
	var counts []sel
	for _, p := range c.phis {
		p := p
		iv := c.fe.regs[p]
		if iv.ptr != nil || iv.clo != nil || iv.iter != nil {
			continue
		}
		n := phiName(p)
		if _, _, ok := intBits(p.Type()); ok {
			i0 := iv.one()
			add(n+" >= init", func(st *State, fr *Frame) *T { return tb.Le(i0, fr.regs[p].one()) })
			add(n+" <= init", func(st *State, fr *Frame) *T { return tb.Le(fr.regs[p].one(), i0) })
			if i0.isInt() {
				k := i0.ival
				counts = append(counts, sel{desc: fmt.Sprintf("%s-%d", n, k), val: func(st *State, fr *Frame) Val { return intVal(tb.AddC(fr.regs[p].one(), -k)) }})
			} else {
				counts = append(counts, sel{desc: fmt.Sprintf("%s-init", n), val: func(st *State, fr *Frame) Val { return intVal(tb.Sub(fr.regs[p].one(), i0)) }})
				add(n+" >= 0", func(st *State, fr *Frame) *T { return tb.Le(tb.Int(0), fr.regs[p].one()) })
			}
			continue
		}
		switch p.Type().Underlying().(type) {
		case *types.Slice:
			a0 := c.entry.alloc
			for i, w := range []string{"base", "off", "len", "cap"} {
				i := i
				if w == "len" {
					continue
				}
				add(fmt.Sprintf("%s(%s) as at entry", w, n), func(st *State, fr *Frame) *T { return tb.Eq(fr.regs[p].l[i], iv.l[i]) })
			}
			add(fmt.Sprintf("base(%s) as at entry or new", n), func(st *State, fr *Frame) *T {
				return tb.Or(tb.Eq(fr.regs[p].l[0], iv.l[0]), tb.Le(a0, fr.regs[p].l[0]))
			})
			add(fmt.Sprintf("base(%s) allocated here", n), func(st *State, fr *Frame) *T {
				return tb.Or(tb.Le(v.entry.alloc, fr.regs[p].l[0]), tb.Eq(fr.regs[p].l[3], tb.Int(0)))
			})
		case *types.Pointer, *types.Map:
			add(n+" as at entry", func(st *State, fr *Frame) *T { return tb.Eq(fr.regs[p].l[0], iv.l[0]) })
		}
	}
	for _, p := range c.phis {
		p := p
		iv := c.fe.regs[p]
		if _, ok := p.Type().Underlying().(*types.Slice); ok && len(iv.l) == 4 {
			for _, k := range counts {
				k := k
				add(fmt.Sprintf("len(%s) = len at entry + %s", phiName(p), k.desc), func(st *State, fr *Frame) *T {
					return tb.Eq(fr.regs[p].l[2], tb.Add(iv.l[2], k.val(st, fr).one()))
				})
			}
		}
	}
	// what is set to the same value in every round but the first, or at times
	for _, p := range c.phis {
		p := p
		iv := c.fe.regs[p]
		if iv.ptr != nil || iv.clo != nil || iv.iter != nil || len(iv.l) != 1 {
			continue
		}
		var later ssa.Value
		same := true
		for i, e := range p.Edges {
			if !c.blocks[p.Block().Preds[i]] || e == p {
				continue
			}
			if later != nil && later != e && !(isConst(e) && isConst(later) && e.(*ssa.Const).Value == later.(*ssa.Const).Value) {
				same = false
			}
			later = e
		}
		if later == nil || !same {
			continue
		}
		if ins, is := later.(ssa.Instruction); is && c.blocks[ins.Block()] {
			continue
		}
		lv, have := c.fe.regs[later]
		if !have {
			if !isConst(later) {
				continue
			}
			lv = v.val(c.entry, c.fe, later)
		}
		if lv.ptr != nil || lv.clo != nil || lv.iter != nil || len(lv.l) != 1 {
			continue
		}
		n := phiName(p)
		for _, k := range counts {
			k := k
			add(fmt.Sprintf("%s as first set after round %s", n, k.desc), func(st *State, fr *Frame) *T {
				return tb.Eq(fr.regs[p].one(), tb.Ite(tb.Eq(k.val(st, fr).one(), tb.Int(0)), iv.one(), lv.one()))
			})
		}
		add(n+" one of two", func(st *State, fr *Frame) *T {
			x := fr.regs[p].one()
			return tb.Or(tb.Eq(x, iv.one()), tb.Eq(x, lv.one()))
		})
	}
	if c.unit == nil {
		for _, p := range c.phis {
			p := p
			if st, ok := c.stepOf(p); ok {
				if _, _, isint := intBits(p.Type()); !isint {
					continue
				}
				k := v.val(c.entry, c.fe, st).one()
				i0 := c.fe.regs[p].one()
				add(phiName(p)+" = init + step*rounds", func(st *State, fr *Frame) *T {
					return tb.Eq(fr.regs[p].one(), tb.Add(i0, tb.Mul(k, c.iter)))
				})
			}
		}
		counts = append(counts, sel{desc: "rounds", val: func(*State, *Frame) Val { return intVal(c.iter) }})
	}
	// counters that move in step
	for i := range counts {
		for j := range counts {
			if i < j {
				a, b := counts[i], counts[j]
				add(fmt.Sprintf("%s = %s", a.desc, b.desc), func(st *State, fr *Frame) *T { return tb.Eq(a.val(st, fr).one(), b.val(st, fr).one()) })
			}
		}
	}
	// comparisons in the loop
	seen := map[string]bool{}
	var bs []*ssa.BasicBlock
	for _, b := range c.header.Parent().Blocks {
		if c.blocks[b] {
			bs = append(bs, b)
		}
	}
	for _, b := range bs {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			x, px, ok1 := c.operand(v, bo.X, 0)
			y, py, ok2 := c.operand(v, bo.Y, 0)
			if !ok1 || !ok2 || (!px && !py) {
				continue
			}
			key := x.desc + "|" + y.desc
			if seen[key] {
				continue
			}
			seen[key] = true
			for d := int64(-1); d <= 1; d++ {
				d := d
				add(fmt.Sprintf("%s <= %s%+d", x.desc, y.desc, d), func(st *State, fr *Frame) *T {
					return tb.Le(x.val(st, fr).one(), tb.AddC(y.val(st, fr).one(), d))
				})
				add(fmt.Sprintf("%s <= %s%+d", y.desc, x.desc, d), func(st *State, fr *Frame) *T {
					return tb.Le(y.val(st, fr).one(), tb.AddC(x.val(st, fr).one(), d))
				})
			}
			// the bound need not hold where the loop is not entered
			if px != py {
				e, f := x, y
				if py {
					e, f = y, x
				}
				x0 := e.val(c.entry, c.fe).one()
				add(fmt.Sprintf("%s <= %s or as at entry", e.desc, f.desc), func(st *State, fr *Frame) *T {
					a := e.val(st, fr).one()
					return tb.Or(tb.Eq(a, x0), tb.Le(a, f.val(st, fr).one()))
				})
				add(fmt.Sprintf("%s >= %s or as at entry", e.desc, f.desc), func(st *State, fr *Frame) *T {
					a := e.val(st, fr).one()
					return tb.Or(tb.Eq(a, x0), tb.Le(f.val(st, fr).one(), a))
				})
			}
			addM(y.desc+" - "+x.desc, func(st *State, fr *Frame) *T { return tb.AddC(tb.Sub(y.val(st, fr).one(), x.val(st, fr).one()), 1) })
			addM(x.desc+" - "+y.desc, func(st *State, fr *Frame) *T { return tb.AddC(tb.Sub(x.val(st, fr).one(), y.val(st, fr).one()), 1) })
		}
	}
	// human-written templates
	// of the function the loop is in, or that which its helper belongs to, and
	// of functions that are gone; all, if that is not enough
	home := v.key
	for f := c.fe; f != nil; f = f.parent {
		if k := fnKey(f.fn); spec.contracts[k] != nil {
			home = k
			break
		}
	}
	for _, t := range v.invPool {
		if !v.wide && t.owner != home && world.funcs[t.owner] != nil && spec.contracts[home] != nil {
			continue
		}
		for _, k := range v.instantiate(c, t, counts) {
			if t.isM {
				meas = append(meas, k)
			} else {
				cands = append(cands, k)
			}
		}
	}
	return
}

func isConst(x ssa.Value) bool { k, ok := x.(*ssa.Const); return ok && k.Value != nil }

// isBuilder: its value is the text written so far
func isBuilder(t types.Type) bool {
	return t.String() == "strings.Builder" || t.String() == "bytes.Buffer"
}

// scope lists the named variables visible at the loop.
func (c *LoopCtx) scope() (names []string, get func(n string) (sel, bool)) {
	m := map[string]sel{}
	add := func(n string, nm Named, top bool) {
		if _, dup := m[n]; dup {
			return
		}
		if nm.cell != nil {
			p := nm.cell
			m[n] = sel{desc: n, typ: p.typ, val: func(st *State, fr *Frame) Val { return st.loadPtr(p) }}
			if p.typ == nil {
				cl := p.cell
				m[n] = sel{desc: n, val: func(st *State, fr *Frame) Val { return st.cells[cl] }}
			}
			return
		}
		if p, ok := nm.src.(*ssa.Phi); ok && top && p.Block() == c.header {
			m[n] = sel{desc: n, typ: p.Type(), val: func(st *State, fr *Frame) Val { return fr.regs[p] }}
			return
		}
		val := nm.val
		m[n] = sel{desc: n, typ: val.t, val: func(st *State, fr *Frame) Val { return val }}
	}
	for _, p := range c.phis {
		if p.Comment != "" {
			add(p.Comment, Named{src: p}, true)
		}
	}
	for f, top := c.fe, true; f != nil; f, top = f.parent, false {
		var ks []string
		for n := range f.names {
			ks = append(ks, n)
		}
		sort.Strings(ks)
		for _, n := range ks {
			add(n, f.names[n], top)
		}
	}
	for n := range m {
		if n != "range!str" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return names, func(n string) (sel, bool) { s, ok := m[n]; return s, ok }
}

const maxInst = 60

// fixed: the loop leaves it as it is
func (c *LoopCtx) fixed(s sel) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	h := c.entry.clone()
	f := c.fe.clone()
	for _, p := range c.phis {
		nv := f.regs[p]
		nv.l = append([]*T{}, nv.l...)
		for i := range nv.l {
			nv.l[i] = tb.Var("fixed?", nv.l[i].sort)
		}
		f.regs[p] = nv
	}
	for k := range c.cells {
		nv := h.cells[k]
		nv.l = append([]*T{}, nv.l...)
		for i := range nv.l {
			nv.l[i] = tb.Var("fixed?", nv.l[i].sort)
		}
		h.cells[k] = nv
	}
	a, b := s.val(c.entry, c.fe), s.val(h, f)
	return len(a.l) == 1 && len(b.l) == 1 && a.l[0] == b.l[0]
}

func (v *Verifier) instantiate(c *LoopCtx, t InvT, counts []sel) []*Cand {
	names, get0 := c.scope()
	get := func(n string) (sel, bool) {
		if s, ok := get0(n); ok {
			return s, true
		}
		if a := aliasOf(t.owner, n); a != "" {
			return get0(a)
		}
		return sel{}, false
	}
	var opts [][]sel
	total := 1
	for _, m := range t.metas {
		var os []sel
		if m.typ == "iter" {
			if s, ok := get(m.name); ok && s.typ != nil {
				if _, _, isint := intBits(s.typ); isint {
					os = append(os, s)
				}
			}
			if len(os) == 0 || v.wide {
				ls := c.entry.loopsp
				for i := len(ls) - 1; i >= 0; i-- {
					if it := ls[i].iter; ls[i] != c && it != nil {
						dup := false
						for _, o := range os {
							if x := o.val(c.entry, c.fe); len(x.l) == 1 && x.one() == it {
								dup = true
							}
						}
						if !dup {
							os = append(os, sel{desc: fmt.Sprintf("rounds of loop %d", i), val: func(*State, *Frame) Val { return intVal(it) }})
						}
					}
				}
			}
		} else if m.typ == "rangepos" || m.typ == "rangestr" {
			// a loop over the code points of a string
			n := "rangepos"
			if m.typ == "rangestr" {
				n = "range!str"
			}
			if s, ok := get0(n); ok {
				os = append(os, s)
			}
		} else if m.typ == "count" {
			os = counts
			if s, ok := get(m.name); ok && s.typ != nil {
				if _, _, isint := intBits(s.typ); isint {
					if v.wide {
						os = append([]sel{s}, os...)
					} else {
						os = []sel{s}
					}
				}
			}
		} else {
			var want types.Type
			var so Sort
			if m.typ != "phi" && m.typ != "fixed" && m.typ != "strphi" {
				want, so = specType(v.con.pkg, m.typ)
			}
			match := func(s sel) bool {
				if s.typ == nil {
					return false
				}
				if m.typ == "string" && isBuilder(s.typ) {
					return true
				}
				if m.typ == "strphi" {
					l := layout(s.typ)
					return len(l) == 1 && l[0].sort == SStr
				}
				if m.typ == "int" || m.typ == "phi" || m.typ == "fixed" {
					_, _, isint := intBits(s.typ)
					return isint
				}
				if want != nil {
					return types.Identical(s.typ.Underlying(), want.Underlying())
				}
				l := layout(s.typ)
				return len(l) == 1 && l[0].sort == so
			}
			if s, ok := get(m.name); ok && m.typ != "strphi" && match(s) {
				os = []sel{s}
			} else {
				for _, p := range c.phis {
					p := p
					s := sel{desc: phiName(p), typ: p.Type(), val: func(st *State, fr *Frame) Val { return fr.regs[p] }}
					if m.typ == "fixed" {
						break
					}
					if iv := c.fe.regs[p]; iv.clo == nil && iv.ptr == nil && match(s) {
						os = append(os, s)
					}
				}
				for _, n := range names {
					if m.typ == "phi" || m.typ == "strphi" {
						break
					}
					s, _ := get(n)
					dup := false
					for _, o := range os {
						if o.desc == s.desc {
							dup = true
						}
					}
					if m.typ == "fixed" && !dup && match(s) {
						if !c.fixed(s) {
							continue
						}
						x := s.val(c.entry, c.fe).one()
						for _, o := range os {
							if o.val(c.entry, c.fe).one() == x {
								dup = true
							}
						}
						if x.isInt() {
							dup = true
						}
					}
					if !dup && match(s) {
						os = append(os, s)
					}
				}
			}
		}
		if len(os) == 0 {
			return nil
		}
		opts = append(opts, os)
		total *= len(os)
	}
	var out []*Cand
	idx := make([]int, len(opts))
	for n := 0; n < total && len(out) < maxInst; n++ {
		bind := map[string]sel{}
		var bd []string
		for i, m := range t.metas {
			s := opts[i][idx[i]]
			bind[m.name] = s
			bd = append(bd, m.name+"="+s.desc)
		}
		desc := t.src
		if len(bd) > 0 {
			desc += " {" + strings.Join(bd, ", ") + "}"
		}
		twice := false
		for i := range idx {
			for j := range idx[:i] {
				if (t.metas[i].typ == "phi" || t.metas[j].typ == "phi") && opts[i][idx[i]].desc == opts[j][idx[j]].desc {
					twice = true
				}
			}
		}
		if !twice {
			out = append(out, &Cand{desc: desc, eval: v.templateEval(c, t.e, bind, get0, t.isM)})
		}
		for i := len(idx) - 1; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(opts[i]) {
				break
			}
			idx[i] = 0
		}
	}
	return out
}

func (v *Verifier) templateEval(c *LoopCtx, e ast.Expr, bind map[string]sel, get func(string) (sel, bool), isM bool) func(st *State, fr *Frame) *T {
	return func(st *State, fr *Frame) *T {
		env := v.contractEnv(v.con, v.params, st, v.entry)
		for n, s := range bind {
			env.vars[n] = s.val(st, fr)
		}
		env.vars["atentry!"] = Val{}
		env.look = func(n string) (Val, bool) {
			if s, ok := get(n); ok {
				x := s.val(st, fr)
				if x.ptr != nil || x.clo != nil || x.iter != nil {
					return Val{}, false
				}
				return x, true
			}
			return Val{}, false
		}
		if isM {
			return env.evalInt(e)
		}
		return env.evalBool(e)
	}
}
