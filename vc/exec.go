package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Named is the current value of a source variable.
type Named struct {
	val  Val
	src  ssa.Value
	cell *Ptr
}

// Frame is the activation of one function.
type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	names  map[string]Named
	loops  []*LoopCtx // active loops, outermost first
	unroll map[*ssa.BasicBlock]int
	parent *Frame
	ret    func(st *State, fr *Frame, res []Val)
	depth  int
	joins  []*joinCtx
	info   *fnInfo
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.names = make(map[string]Named, len(f.names))
	for k, v := range f.names {
		n.names[k] = v
	}
	n.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	return &n
}

// Obl is a proof obligation, merged over all paths it arises on.
type Obl struct {
	Fn      string   `json:"fn"`
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	Tags    []string `json:"tags,omitempty"`
	Text    string   `json:"text,omitempty"`
	Pos     string   `json:"pos,omitempty"`
	Queries int      `json:"queries"`
	OK      bool     `json:"ok"`
	Backend string   `json:"backend,omitempty"`
	Reason  string   `json:"reason,omitempty"`
	Model   []string `json:"model,omitempty"`
}

// Verifier checks one function against its contract.
type Verifier struct {
	sess     *Session
	poolS    []*Session
	poolN    int
	fn       *ssa.Function
	key      string
	con      *Contract
	entry    *State
	params   map[string]Val
	wideArgs map[string]bool // 64-bit arguments given by the user
	obls     []*Obl
	oblBy    map[string]*Obl
	silent   int // >0: assume obligations (they are checked in the final pass)
	dry      int // >0: no solver at all
	inline   map[string]bool
	used     map[string]bool // callee contracts relied on
	exts     map[string]bool // library contracts relied on
	inlined  map[string]bool
	paths    int
	cellN    int
	frameTop []modEntry
	invPool  []InvT
	skip     map[ssa.Instruction]bool // left out: see pkginit.go
	deadline func() bool
	failed   bool
	quickMs  int
	hardMs   int
	assumed  map[string]bool
	loopsN   int
	noMerge  bool
	share    bool // loop candidates that failed on one path are not tried on others
	wide     bool // try every instantiation of loop invariants
	loopLive map[string]map[string]bool
}

type modEntry struct {
	heap string
	ref  *T // nil: scalar
}

// ---- proving

func flattenGoal(hyps []*T, g *T) [][2]any {
	switch g.op {
	case "and":
		var out [][2]any
		for _, x := range g.args {
			out = append(out, flattenGoal(hyps, x)...)
		}
		return out
	case "=>":
		return flattenGoal(append(hyps[:len(hyps):len(hyps)], g.args[0]), g.args[1])
	case "forall":
		m := map[*T]*T{}
		for _, b := range g.bvs {
			m[b] = freshVar("sk", b.sort)
		}
		return flattenGoal(hyps, tb.Subst(g.args[0], m))
	}
	return [][2]any{{hyps, g}}
}

var hardAlways bool

func (v *Verifier) prove(st *State, goal *T, ms int, hard bool) answer {
	if goal.isTrue() {
		return answer{res: "unsat", backend: "simplifier"}
	}
	save := freshN
	defer func() { freshN = save }()
	last := answer{res: "unsat", backend: "simplifier"}
	for _, p := range flattenGoal(st.pc, goal) {
		hy, g := p[0].([]*T), p[1].(*T)
		if g.isTrue() {
			continue
		}
		a := v.sess.prove(hy, g, ms, nil)
		if a.res != "unsat" && hard && v.hardMs > 0 {
			h := v.sess.proveD(hy, g, ms, nil, unfoldDepth+1)
			if h.res != "unsat" && v.hardMs > 1 && (h.slow || a.slow || hardAlways) {
				h = v.sess.proveHard(hy, g, v.hardMs)
			}
			if h.res == "unsat" {
				a = h
			}
		}
		if a.res != "unsat" {
			a.reason = "hypotheses and negated goal: " + a.res
			return a
		}
		last = a
	}
	return last
}

// check records an obligation, proves it and continues assuming it.
func (v *Verifier) check(st *State, kind, name string, tags []string, text string, pos token.Pos, goal *T) {
	if v.dry > 0 || v.silent > 0 {
		st.assume(goal)
		return
	}
	o := v.obl(kind, name, tags, text, pos)
	o.Queries++
	if goal.isTrue() {
		return
	}
	if !o.OK {
		st.assume(goal)
		return
	}
	t0 := time.Now()
	a := v.prove(st, goal, v.quickMs, true)
	prof("check "+kind, t0)
	stats.byBackend[a.backend]++
	if a.res != "unsat" {
		o.OK = false
		o.Reason = a.reason + "\n  goal: " + clip(tb.Str(goal), 1500) + "\n  path: " + clip(pathStr(st.pc), 3000)
		v.failed = true
		if debugOn {
			fmt.Printf("FAIL %s %s %s\n%s\n", v.key, name, text, o.Reason)
		}
	} else if o.Backend == "" || o.Backend == "simplifier" {
		o.Backend = a.backend
	}
	st.assume(goal)
}

var debugOn bool

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func pathStr(pc []*T) string {
	var sb strings.Builder
	for i := len(pc) - 1; i >= 0 && sb.Len() < 6000; i-- {
		sb.WriteString("\n    " + clip(tb.Str(pc[i]), 300))
	}
	return sb.String()
}

func (v *Verifier) obl(kind, name string, tags []string, text string, pos token.Pos) *Obl {
	k := kind + "|" + name
	if o, ok := v.oblBy[k]; ok {
		return o
	}
	o := &Obl{Fn: v.key, Name: name, Kind: kind, Tags: tags, Text: text, OK: true}
	if pos.IsValid() {
		p := world.fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, world.repo+"/"), p.Line)
	}
	v.oblBy[k] = o
	v.obls = append(v.obls, o)
	return o
}

// safety obligation: named by function, kind and ordinal of the instruction.
func (v *Verifier) safe(st *State, fr *Frame, ins ssa.Instruction, kind string, goal *T) {
	if goal.isTrue() && (v.dry > 0 || v.silent > 0) {
		return
	}
	nm := fmt.Sprintf("%s@%s", kind, fr.info.insName(ins))
	if fr.fn != v.fn {
		nm = fnKey(fr.fn) + "/" + nm
	}
	v.check(st, "safety", nm, nil, kind, ins.Pos(), goal)
}

func (v *Verifier) feasible(st *State) bool {
	if v.dry > 0 {
		for _, p := range st.pc {
			if p.isFalse() {
				return false
			}
		}
		return true
	}
	t0 := time.Now()
	a := v.sess.prove(st.pc, tb.Bool(false), 150, nil)
	prof("feasible", t0)
	return a.res != "unsat"
}

// ---- function info

type fnInfo struct {
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	insN  map[ssa.Instruction]string
	cells map[*ssa.Alloc]bool
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
}

var infos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := infos[fn]; ok {
		return i
	}
	i := &fnInfo{loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, insN: map[ssa.Instruction]string{}, cells: map[*ssa.Alloc]bool{}}
	infos[fn] = i
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := i.loops[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					i.loops[s] = set
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if set[x] {
						continue
					}
					set[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	cnt := map[string]int{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			k := strings.TrimPrefix(fmt.Sprintf("%T", ins), "*ssa.")
			cnt[k]++
			i.insN[ins] = fmt.Sprintf("%s%d", k, cnt[k])
			if a, ok := ins.(*ssa.Alloc); ok {
				i.cells[a] = cellOnly(a, 0)
			}
		}
	}
	return i
}

func (i *fnInfo) insName(ins ssa.Instruction) string { return i.insN[ins] }

// cellOnly: the address is only used to load, store, and be captured by closures.
func cellOnly(a ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	refs := a.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Call:
			// methods of a text buffer
			fn := r.Common().StaticCallee()
			if fn == nil || !strings.HasPrefix(extKey(fn), "ext.strings.(*Builder).") && !strings.HasPrefix(extKey(fn), "ext.bytes.(*Buffer).") {
				return false
			}
			for i, x := range r.Common().Args {
				if i > 0 && x == a {
					return false
				}
			}
		case *ssa.FieldAddr:
			if !cellOnly(r, depth+1) {
				return false
			}
		case *ssa.IndexAddr:
			if _, ok := r.Index.(*ssa.Const); !ok {
				return false
			}
			if !cellOnly(r, depth+1) {
				return false
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == a && !cellOnly(fn.FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// ---- values

func fnVal(f *ssa.Function) Val {
	return Val{t: f.Signature, l: []*T{tb.Var("fn!"+fnKey(f), SFn)}, clo: &Closure{fn: f}}
}

func (v *Verifier) val(st *State, fr *Frame, x ssa.Value) Val {
	if r, ok := fr.regs[x]; ok {
		return r
	}
	switch x := x.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroVal(x.Type())
		}
		c := x.Value
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			c = constant.ToInt(c)
		}
		return mkVal(x.Type(), constTerm(x.Type(), c))
	case *ssa.Function:
		return fnVal(x)
	case *ssa.Global:
		return Val{t: x.Type(), ptr: &Ptr{kind: "glob", glob: x, typ: x.Type().(*types.Pointer).Elem()}}
	}
	unsupported("value %s of %s", x.Name(), fr.fn)
	return Val{}
}

// ---- running

// enter transfers control from prev to b.
func (v *Verifier) enter(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.blocks[b] {
			break
		}
		if l.probe {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
		st.dropLoop(l)
	}
	if _, ok := fr.info.loops[b]; ok {
		if n := len(fr.loops); n > 0 && fr.loops[n-1].header == b {
			fr.loops[n-1].back(st, fr, prev)
			return
		}
		v.loopEntry(st, fr, b, prev)
		return
	}
	v.setPhis(st, fr, b, prev)
	v.arrive(st, fr, b)
}

func (v *Verifier) setPhis(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	var vals []Val
	var phis []*ssa.Phi
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		x := v.val(st, fr, p.Edges[pi])
		x.t = p.Type()
		phis = append(phis, p)
		vals = append(vals, x)
	}
	for i, p := range phis {
		fr.regs[p] = vals[i]
		if p.Comment != "" {
			fr.names[p.Comment] = Named{val: vals[i], src: p}
		}
	}
}

type timeUp struct{}

// run executes b from instruction i on.
func (v *Verifier) run(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	if v.deadline != nil && v.deadline() {
		panic(timeUp{})
	}
	for ; i < len(b.Instrs); i++ {
		if v.skip != nil && v.skip[b.Instrs[i]] {
			continue
		}
		switch ins := b.Instrs[i].(type) {
		case *ssa.Phi:
		case *ssa.DebugRef:
			v.debugRef(st, fr, ins)
		case *ssa.Jump:
			v.enter(st, fr, b.Succs[0], b)
			return
		case *ssa.If:
			c := v.val(st, fr, ins.Cond).one()
			if c.isTrue() {
				v.enter(st, fr, b.Succs[0], b)
				return
			}
			if c.isFalse() {
				v.enter(st, fr, b.Succs[1], b)
				return
			}
			v.branch(st, fr, b, c)
			return
		case *ssa.Return:
			for _, l := range fr.loops {
				if l.probe {
					return
				}
			}
			var res []Val
			for k, r := range ins.Results {
				x := v.val(st, fr, r)
				x.t = fr.fn.Signature.Results().At(k).Type()
				res = append(res, x)
			}
			for len(fr.loops) > 0 {
				st.dropLoop(fr.loops[len(fr.loops)-1])
				fr.loops = fr.loops[:len(fr.loops)-1]
			}
			fr.ret(st, fr, res)
			return
		case *ssa.Panic:
			v.panicked(st, fr, ins, v.val(st, fr, ins.X))
			return
		case *ssa.Call:
			next := i + 1
			v.call(st, fr, ins, ins.Common(), func(st *State, fr *Frame, res Val) {
				fr.regs[ins] = res
				v.run(st, fr, b, next)
			})
			return
		default:
			v.simple(st, fr, ins)
		}
	}
}

func (v *Verifier) panicked(st *State, fr *Frame, ins ssa.Instruction, val Val) {
	inProbe := false
	for f := fr; f != nil; f = f.parent {
		for _, l := range f.loops {
			if l.probe {
				inProbe = true
			}
		}
	}
	if inProbe || v.dry > 0 || v.silent > 0 {
		return
	}
	if v.con != nil && v.con.panics != nil {
		env := v.contractEnv(v.con, v.params, st, v.entry)
		env.vars["panicval!"] = Val{t: val.t, l: val.l}
		wv := st.werrv
		if wv == nil {
			wv = sortZero(SIfc)
		}
		env.vars["werrv!"] = mathVal(wv)
		g := env.evalBool(v.con.panics.e)
		v.check(st, "panics", "panics", v.con.panics.tags, v.con.panics.src, ins.Pos(), g)
		return
	}
	v.safe(st, fr, ins, "unreachable-panic", tb.Bool(false))
}

func (v *Verifier) debugRef(st *State, fr *Frame, d *ssa.DebugRef) {
	o := d.Object()
	if o == nil {
		return
	}
	if _, ok := o.(*types.Var); !ok {
		return
	}
	x, ok := fr.regs[d.X]
	if !ok {
		switch d.X.(type) {
		case *ssa.Const, *ssa.Function:
			x = v.val(st, fr, d.X)
		default:
			return
		}
	}
	if d.IsAddr {
		if x.ptr != nil {
			fr.names[o.Name()] = Named{cell: x.ptr}
		}
		return
	}
	if old, ok := fr.names[o.Name()]; ok && old.cell != nil && old.cell.kind == "cell" && old.cell.cell.name == o.Name() {
		return
	}
	fr.names[o.Name()] = Named{val: x, src: d.X}
}

func (v *Verifier) newRef(st *State) *T {
	st.noteAlloc()
	r := st.alloc
	st.alloc = tb.AddC(st.alloc, 1)
	return r
}

// ---- stores

func (v *Verifier) storePtr(st *State, fr *Frame, ins ssa.Instruction, p *Ptr, x Val) {
	n := len(layout(p.typ))
	if p.kind != "cell" {
		x = v.materialize(st, x)
		if len(x.l) != n {
			unsupported("store of %s", x.t)
		}
	}
	switch p.kind {
	case "cell":
		cur, ok := st.cells[p.cell]
		if !ok {
			cur = zeroVal(p.cell.typ)
		}
		if p.off == 0 && (x.ptr != nil || x.clo != nil || x.iter != nil || len(x.l) == len(cur.l)) {
			x.t = p.cell.typ
			st.cells[p.cell] = x
		} else {
			nl := append([]*T{}, cur.l...)
			copy(nl[p.off:p.off+n], x.l)
			st.cells[p.cell] = Val{t: p.cell.typ, l: nl}
		}
		st.noteStore(v, "", nil, p.cell)
	case "obj":
		for i := 0; i < n; i++ {
			nm, so := objHeap(p.root, p.off+i)
			v.noteRef(st, fr, ins, nm, p.ref)
			st.heap[nm] = tb.Store(st.get(nm, so), p.ref, x.l[i])
		}
	case "elem":
		for i := 0; i < n; i++ {
			nm, so := elemHeap(p.root, p.off+i)
			h := st.get(nm, so)
			v.noteRef(st, fr, ins, nm, p.ref)
			st.heap[nm] = tb.Store(h, p.ref, tb.Store(tb.Select(h, p.ref), p.idx, x.l[i]))
		}
	case "glob":
		if _, ok := world.frozen[p.glob]; ok {
			unsupported("store to frozen global %s", p.glob)
		}
		gt := p.glob.Type().(*types.Pointer).Elem()
		for i := 0; i < n; i++ {
			nm, so := globHeap(p.glob.Pkg.Pkg.Name(), p.glob.Name(), gt, p.off+i)
			st.get(nm, so)
			v.noteRef(st, fr, ins, nm, nil)
			st.heap[nm] = x.l[i]
		}
	default:
		unsupported("store through %s pointer", p.kind)
	}
}

// materialize gives a value that can live in memory.
func (v *Verifier) materialize(st *State, x Val) Val {
	if x.ptr != nil {
		if x.ptr.kind == "obj" && x.ptr.off == 0 {
			return mkVal(x.t, x.ptr.ref)
		}
		unsupported("interior pointer stored in memory")
	}
	if x.clo != nil && len(x.l) == 0 {
		unsupported("closure stored in memory")
	}
	if x.iter != nil || x.tup != nil {
		unsupported("tuple stored in memory")
	}
	return x
}

// noteRef checks a store against the function's frame and the active loops.
func (v *Verifier) noteRef(st *State, fr *Frame, ins ssa.Instruction, heap string, ref *T) {
	// (a package's initialization may write any object, no user holds one yet,
	// and includes the initialization of the packages it imports)
	free := isPkgInit(v.fn) && !strings.HasPrefix(heap, "G:"+fnPkg(v.fn).Pkg.Name()+".")
	if v.dry == 0 && v.silent == 0 && !free {
		allowed := v.frameAllows(heap, ref)
		pos := token.NoPos
		nm := "frame"
		if ins != nil {
			pos = ins.Pos()
			nm = "frame@" + fr.info.insName(ins)
			if fr.fn != v.fn {
				nm = fnKey(fr.fn) + "/" + nm
			}
		}
		v.check(st, "frame", nm+":"+heap, nil, "writes only what the contract lists", pos, allowed)
	}
	st.noteStore(v, heap, ref, nil)
}

func (v *Verifier) frameAllows(heap string, ref *T) *T {
	var alts []*T
	for _, m := range v.frameTop {
		if m.heap != heap {
			continue
		}
		if m.ref == nil {
			return tb.Bool(true)
		}
		if ref != nil {
			alts = append(alts, tb.Eq(m.ref, ref))
		}
	}
	if ref != nil && ref.sort == SInt {
		alts = append(alts, tb.Le(v.entry.alloc, ref))
	}
	return tb.Or(alts...)
}

// ---- simple instructions

func (v *Verifier) simple(st *State, fr *Frame, ins ssa.Instruction) {
	set := func(x ssa.Value, r Val) { fr.regs[x] = r }
	switch x := ins.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		if fr.info.cells[x] {
			v.cellN++
			c := &Cell{name: x.Comment, typ: et, id: v.cellN}
			st.cells[c] = zeroVal(et)
			st.noteStore(v, "", nil, c)
			p := &Ptr{kind: "cell", cell: c, typ: et}
			set(x, Val{t: x.Type(), ptr: p})
			if x.Comment != "" {
				fr.names[x.Comment] = Named{cell: p}
			}
			return
		}
		if at, ok := et.Underlying().(*types.Array); ok {
			base := v.newRef(st)
			for i, lf := range layout(at.Elem()) {
				nm, so := elemHeap(at.Elem(), i)
				h := st.get(nm, so)
				st.noteStore(v, nm, base, nil)
				st.heap[nm] = tb.Store(h, base, tb.ConstArr(ArrSort(SInt, lf.sort), sortZero(lf.sort)))
			}
			set(x, Val{t: x.Type(), ptr: &Ptr{kind: "arr", ref: base, root: at.Elem(), typ: et}})
			return
		}
		ref := v.newRef(st)
		z := zeroVal(et)
		for i := range z.l {
			nm, so := objHeap(et, i)
			h := st.get(nm, so)
			st.noteStore(v, nm, ref, nil)
			st.heap[nm] = tb.Store(h, ref, z.l[i])
		}
		if ft := ownField(et); ft != nil {
			r2 := v.newRef(st)
			for i, t := range zeroVal(ft).l {
				nm, so := objHeap(ft, i)
				h := st.get(nm, so)
				st.noteStore(v, nm, r2, nil)
				st.heap[nm] = tb.Store(h, r2, t)
			}
		}
		set(x, mkVal(x.Type(), ref))
		st.assume(tb.Lt(tb.Int(0), ref))
		if isBuilder(et) && x.Comment != "" {
			fr.names[x.Comment] = Named{cell: toPtr(mkVal(x.Type(), ref))}
		}
	case *ssa.Store:
		pv := v.val(st, fr, x.Addr)
		if pv.ptr == nil {
			v.safe(st, fr, ins, "nil-deref", tb.Not(tb.Eq(pv.one(), tb.Int(0))))
		}
		v.storePtr(st, fr, ins, toPtr(pv), v.val(st, fr, x.Val))
	case *ssa.UnOp:
		v.unop(st, fr, x)
	case *ssa.BinOp:
		v.binop(st, fr, x)
	case *ssa.FieldAddr:
		pv := v.val(st, fr, x.X)
		if pv.ptr == nil {
			v.safe(st, fr, ins, "nil-deref", tb.Not(tb.Eq(pv.one(), tb.Int(0))))
		}
		p := *toPtr(pv)
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if ownObject(stt.Field(x.Field)) {
			st.assume(tb.Lt(tb.Int(0), p.ref)) // not nil, and references are not negative
			set(x, mkVal(x.Type(), tb.AddC(p.ref, 1)))
			return
		}
		off, _ := fieldOff(stt, x.Field)
		p.off += off
		p.typ = stt.Field(x.Field).Type()
		set(x, Val{t: x.Type(), ptr: &p})
	case *ssa.Field:
		sv := v.val(st, fr, x.X)
		stt := x.X.Type().Underlying().(*types.Struct)
		off, n := fieldOff(stt, x.Field)
		set(x, Val{t: x.Type(), l: sv.l[off : off+n]})
	case *ssa.IndexAddr:
		i := v.val(st, fr, x.Index).one()
		xv := v.val(st, fr, x.X)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			v.safe(st, fr, ins, "index", tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, xv.l[2])))
			set(x, Val{t: x.Type(), ptr: &Ptr{kind: "elem", ref: xv.l[0], root: u.Elem(), idx: tb.Add(xv.l[1], i), typ: u.Elem()}})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			v.safe(st, fr, ins, "index", tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, tb.Int(at.Len()))))
			p := toPtr(xv)
			if p.kind == "arr" {
				set(x, Val{t: x.Type(), ptr: &Ptr{kind: "elem", ref: p.ref, root: p.root, idx: i, typ: at.Elem()}})
				return
			}
			if c, ok := world.frozen[p.glob]; ok && p.kind == "glob" && p.off == 0 && !i.isInt() && c.elem != nil {
				set(x, Val{t: x.Type(), ptr: &Ptr{kind: "tab", glob: p.glob, idx: i, typ: at.Elem()}})
				return
			}
			if !i.isInt() {
				unsupported("symbolic index into array variable")
			}
			q := *p
			q.off += int(i.ival) * len(layout(at.Elem()))
			q.typ = at.Elem()
			set(x, Val{t: x.Type(), ptr: &q})
		default:
			unsupported("IndexAddr of %s", x.X.Type())
		}
	case *ssa.Index:
		i := v.val(st, fr, x.Index).one()
		xv := v.val(st, fr, x.X)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Basic: // string
			v.safe(st, fr, ins, "index", tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, Slen(xv.one()))))
			r := mkVal(x.Type(), Sat(xv.one(), i))
			set(x, r)
		case *types.Array:
			v.safe(st, fr, ins, "index", tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, tb.Int(u.Len()))))
			n := len(layout(u.Elem()))
			if i.isInt() {
				set(x, Val{t: x.Type(), l: xv.l[int(i.ival)*n : (int(i.ival)+1)*n]})
				return
			}
			r := Val{t: x.Type()}
			for k := 0; k < n; k++ {
				t := xv.l[(int(u.Len())-1)*n+k]
				for j := int(u.Len()) - 2; j >= 0; j-- {
					t = tb.Ite(tb.Eq(i, tb.Int(int64(j))), xv.l[j*n+k], t)
				}
				r.l = append(r.l, t)
			}
			set(x, r)
		default:
			unsupported("Index of %s", x.X.Type())
		}
	case *ssa.Slice:
		v.slice(st, fr, x)
	case *ssa.Extract:
		t := v.val(st, fr, x.Tuple)
		set(x, t.tup[x.Index])
	case *ssa.Convert:
		v.convert(st, fr, x)
	case *ssa.ChangeType:
		if a, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if b, ok := x.Type().Underlying().(*types.Pointer); ok && typeKey(a.Elem()) != typeKey(b.Elem()) {
				unsupported("conversion of a %s to a %s", x.X.Type(), x.Type())
			}
		}
		r := v.val(st, fr, x.X)
		r.t = x.Type()
		set(x, r)
	case *ssa.ChangeInterface:
		r := v.val(st, fr, x.X)
		r.t = x.Type()
		set(x, r)
	case *ssa.MakeInterface:
		set(x, mkVal(x.Type(), boxVal(v.materialize(st, v.val(st, fr, x.X)))))
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.free = append(c.free, v.val(st, fr, b))
		}
		f := freshVar("clo", SFn)
		st.assume(tb.Not(tb.Eq(f, sortZero(SFn))))
		set(x, Val{t: x.Type(), l: []*T{f}, clo: c})
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		ref := v.newRef(st)
		st.assume(tb.Lt(tb.Int(0), ref))
		nm, so := mapDomHeap(mt)
		ks := mapKeySort(mt)
		h := st.get(nm, so)
		st.noteStore(v, nm, ref, nil)
		st.heap[nm] = tb.Store(h, ref, tb.ConstArr(ArrSort(ks, SBool), tb.Bool(false)))
		for i, lf := range layout(mt.Elem()) {
			nm, so := mapValHeap(mt, i)
			h := st.get(nm, so)
			st.noteStore(v, nm, ref, nil)
			st.heap[nm] = tb.Store(h, ref, tb.ConstArr(ArrSort(ks, lf.sort), sortZero(lf.sort)))
		}
		set(x, mkVal(x.Type(), ref))
	case *ssa.MakeSlice:
		ln, cp := v.val(st, fr, x.Len).one(), v.val(st, fr, x.Cap).one()
		v.safe(st, fr, ins, "makeslice", tb.And(tb.Le(tb.Int(0), ln), tb.Le(ln, cp)))
		et := x.Type().Underlying().(*types.Slice).Elem()
		set(x, v.newSlice(st, x.Type(), et, ln, cp, nil))
	case *ssa.Lookup:
		v.lookup(st, fr, x)
	case *ssa.MapUpdate:
		mv := v.val(st, fr, x.Map)
		mt := x.Map.Type().Underlying().(*types.Map)
		v.safe(st, fr, ins, "nil-map-write", tb.Not(tb.Eq(mv.one(), tb.Int(0))))
		k := v.val(st, fr, x.Key).one()
		val := v.materialize(st, v.val(st, fr, x.Value))
		nm, so := mapDomHeap(mt)
		h := st.get(nm, so)
		v.noteRef(st, fr, ins, nm, mv.one())
		st.heap[nm] = tb.Store(h, mv.one(), tb.Store(tb.Select(h, mv.one()), k, tb.Bool(true)))
		for i := range layout(mt.Elem()) {
			nm, so := mapValHeap(mt, i)
			h := st.get(nm, so)
			v.noteRef(st, fr, ins, nm, mv.one())
			st.heap[nm] = tb.Store(h, mv.one(), tb.Store(tb.Select(h, mv.one()), k, val.l[i]))
		}
	case *ssa.Range:
		xv := v.val(st, fr, x.X)
		v.cellN++
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			ks := mapKeySort(mt)
			c := &Cell{name: "visited!", id: v.cellN}
			st.cells[c] = mathVal(tb.ConstArr(ArrSort(ks, SBool), tb.Bool(false)))
			st.noteStore(v, "", nil, c)
			nm, so := mapDomHeap(mt)
			set(x, Val{t: x.Type(), iter: &Iter{isMap: true, m: xv, cell: c, dom: tb.Select(st.get(nm, so), xv.one())}})
			fr.names["visited!"] = Named{cell: &Ptr{kind: "cell", cell: c}}
			return
		}
		c := &Cell{name: "rangepos", id: v.cellN, typ: types.Typ[types.Int]}
		st.cells[c] = intVal(tb.Int(0))
		st.noteStore(v, "", nil, c)
		fr.names["range!str"] = Named{val: xv}
		fr.names["rangepos"] = Named{cell: &Ptr{kind: "cell", cell: c, typ: types.Typ[types.Int]}}
		set(x, Val{t: x.Type(), iter: &Iter{m: xv, cell: c}})
	case *ssa.Next:
		v.next(st, fr, x)
	case *ssa.TypeAssert:
		unsupported("type assertion")
	default:
		unsupported("%T", ins)
	}
}

// newSlice allocates a slice with zeroed (or given) contents.
func (v *Verifier) newSlice(st *State, t, et types.Type, ln, cp *T, content []*T) Val {
	base := v.newRef(st)
	st.assume(tb.Lt(tb.Int(0), base))
	for i, lf := range layout(et) {
		nm, so := elemHeap(et, i)
		h := st.get(nm, so)
		st.noteStore(v, nm, base, nil)
		c := tb.ConstArr(ArrSort(SInt, lf.sort), sortZero(lf.sort))
		if content != nil {
			c = content[i]
		}
		st.heap[nm] = tb.Store(h, base, c)
	}
	return mkVal(t, base, tb.Int(0), ln, cp)
}

func (v *Verifier) next(st *State, fr *Frame, x *ssa.Next) {
	it := v.val(st, fr, x.Iter).iter
	if it == nil {
		unsupported("next without iterator")
	}
	cur := st.cells[it.cell].l[0]
	if !it.isMap {
		s := it.m.one()
		ok := tb.Lt(cur, Slen(s))
		suf := Ssub(s, cur, Slen(s))
		r := tb.App(dDr(), suf)
		st.cells[it.cell] = intVal(tb.Ite(ok, tb.Add(cur, tb.App(dDl(), suf)), cur))
		st.noteStore(v, "", nil, it.cell)
		fr.regs[x] = Val{t: x.Type(), tup: []Val{boolVal(ok), intVal(cur), mkVal(types.Typ[types.Int32], r)}}
		return
	}
	mt := it.m.t.Underlying().(*types.Map)
	ks := mapKeySort(mt)
	ok := freshVar("more", SBool)
	k := freshVar("key", ks)
	nm, so := mapDomHeap(mt)
	d := tb.Select(st.get(nm, so), it.m.one())
	// the key is in the map now and at the start, and was not visited
	st.assume(tb.Imp(ok, tb.And(tb.Select(d, k), tb.Select(it.dom, k), tb.Not(tb.Select(cur, k)))))
	b := tb.BVar("nk", ks)
	st.assume(tb.Imp(tb.Not(ok), tb.Forall([]*T{b}, [][]*T{{tb.Select(it.dom, b)}, {tb.Select(cur, b)}}, tb.Imp(tb.And(tb.Select(it.dom, b), tb.Select(d, b)), tb.Select(cur, b)))))
	val, _ := st.mapGet(mt, it.m.one(), k)
	st.assume(st.mapFacts(mt, it.m.one(), k))
	st.cells[it.cell] = mathVal(tb.Ite(ok, tb.Store(cur, k, tb.Bool(true)), cur))
	st.noteStore(v, "", nil, it.cell)
	fr.regs[x] = Val{t: x.Type(), tup: []Val{boolVal(ok), mkVal(mt.Key(), k), val}}
}

func (v *Verifier) lookup(st *State, fr *Frame, x *ssa.Lookup) {
	xv := v.val(st, fr, x.X)
	if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
		i := v.val(st, fr, x.Index).one()
		v.safe(st, fr, x, "index", tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, Slen(xv.one()))))
		fr.regs[x] = mkVal(x.Type(), Sat(xv.one(), i))
		return
	}
	mt := x.X.Type().Underlying().(*types.Map)
	kv := v.val(st, fr, x.Index)
	var val Val
	var ok *T
	if cm := frozenMapOf(xv); cm != nil {
		val, ok = lookupFrozen(cm, mt, kv)
	} else {
		k := kv.one()
		val, ok = st.mapGet(mt, xv.one(), k)
		st.assume(st.mapFacts(mt, xv.one(), k))
		st.assume(typeFacts(val))
		st.assume(st.refFacts(val))
	}
	if x.CommaOk {
		fr.regs[x] = Val{t: x.Type(), tup: []Val{val, boolVal(ok)}}
	} else {
		fr.regs[x] = val
	}
}

func (v *Verifier) unop(st *State, fr *Frame, x *ssa.UnOp) {
	xv := v.val(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		if xv.ptr == nil {
			v.safe(st, fr, x, "nil-deref", tb.Not(tb.Eq(xv.one(), tb.Int(0))))
		}
		p := toPtr(xv)
		r := st.loadPtr(p)
		if p.kind == "arr" {
			unsupported("load of a whole array")
		}
		if p.kind != "cell" && r.clo == nil {
			st.assume(typeFacts(r))
			st.assume(st.refFacts(r))
		}
		if g := p.glob; g != nil && p.kind == "glob" {
			if c, ok := world.frozen[g]; ok {
				fv := frozenVal(g, c)
				if p.off == 0 && len(fv.l) == len(r.l) {
					r = fv
				}
				r.t = x.Type()
			}
		}
		fr.regs[x] = r
	case token.NOT:
		fr.regs[x] = mkVal(x.Type(), tb.Not(xv.one()))
	case token.SUB:
		fr.regs[x] = mkVal(x.Type(), v.bounded(st, x.Type(), v.unsigned(st, x.Type(), wrapInt(x.Type(), tb.Neg(xv.one())))))
	default:
		unsupported("unary %s", x.Op)
	}
}

func pow2(n int64) (int, bool) {
	for i := 0; i < 62; i++ {
		if int64(1)<<i == n {
			return i, true
		}
	}
	return 0, false
}

// bounded: 64-bit arithmetic is mathematical where the operands are lengths,
// counts and widths. A result that depends on an argument given by the user is
// known only if it is in range: the largest int is some number of at least
// 2^60, and what the argument, its sums and products exceed it with is unknown.
func (v *Verifier) bounded(st *State, t types.Type, x *T) *T {
	bits, signed, ok := intBits(t)
	if !ok || bits != 64 || x.isInt() || len(v.wideArgs) == 0 {
		return x
	}
	hit := false
	var lens []*T
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" && v.wideArgs[t.name] {
			hit = true
		}
		if t.op == "app" && t.name == "slen" {
			lens = append(lens, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(x)
	if !hit {
		return x
	}
	m := maxInt()
	lo := tb.Int(0)
	if signed {
		lo = tb.AddC(tb.Neg(m), -1)
	}
	g := tb.And(tb.Le(lo, x), tb.Le(x, m))
	h := st.clone()
	for _, l := range lens {
		h.assume(tb.Le(l, tb.Int(1<<47))) // strings fit in memory
	}
	if v.dry > 0 || v.prove(h, g, v.quickMs, false).res == "unsat" {
		return x
	}
	return tb.Ite(g, x, freshVar("overflow", SInt))
}

// unsigned: a difference of 64-bit unsigned numbers; below zero it wraps to some
// large number.
func (v *Verifier) unsigned(st *State, t types.Type, x *T) *T {
	bits, signed, ok := intBits(t)
	if !ok || bits != 64 || signed || x.isInt() && x.ival >= 0 {
		return x
	}
	if v.dry > 0 || v.prove(st, tb.Le(tb.Int(0), x), v.quickMs, false).res == "unsat" {
		return x
	}
	y := freshVar("wrapped", SInt)
	st.assume(tb.Lt(tb.Int(1<<62), y))
	return tb.Ite(tb.Le(tb.Int(0), x), x, y)
}

func maxInt() *T {
	m := tb.Var("maxint!", SInt)
	if !typedHeap["maxint!"] {
		typedHeap["maxint!"] = true
		addAxiom("maxint", tb.Le(tb.Int(1<<60), m), "maxint!")
	}
	return m
}

func (v *Verifier) binop(st *State, fr *Frame, x *ssa.BinOp) {
	a, b := v.val(st, fr, x.X), v.val(st, fr, x.Y)
	set := func(t *T) { fr.regs[x] = mkVal(x.Type(), t) }
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *T
		if c, ok := x.Y.(*ssa.Const); ok && c.Value == nil && !isBasic(x.Y.Type()) {
			r = isNil(a)
		} else if c, ok := x.X.(*ssa.Const); ok && c.Value == nil && !isBasic(x.X.Type()) {
			r = isNil(b)
		} else {
			if a.ptr != nil || b.ptr != nil || len(a.l) != len(b.l) {
				unsupported("comparison of %s", x.X.Type())
			}
			var fs []*T
			for i := range a.l {
				fs = append(fs, tb.Eq(a.l[i], b.l[i]))
			}
			r = tb.And(fs...)
		}
		if x.Op == token.NEQ {
			r = tb.Not(r)
		}
		set(r)
		return
	}
	l, r := a.one(), b.one()
	if l.sort == SStr {
		switch x.Op {
		case token.ADD:
			set(Scat(l, r))
			return
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			unsupported("string order")
		}
	}
	switch x.Op {
	case token.ADD:
		set(v.bounded(st, x.Type(), wrapInt(x.Type(), tb.Add(l, r))))
	case token.SUB:
		set(v.bounded(st, x.Type(), v.unsigned(st, x.Type(), wrapInt(x.Type(), tb.Sub(l, r)))))
	case token.MUL:
		set(v.bounded(st, x.Type(), wrapInt(x.Type(), tb.Mul(l, r))))
	case token.QUO, token.REM:
		v.safe(st, fr, x, "div-by-zero", tb.Not(tb.Eq(r, tb.Int(0))))
		if x.Op == token.QUO {
			set(wrapInt(x.Type(), tb.Quo(l, r)))
		} else {
			set(tb.Rem(l, r))
		}
	case token.LSS:
		set(tb.Lt(l, r))
	case token.LEQ:
		set(tb.Le(l, r))
	case token.GTR:
		set(tb.Gt(l, r))
	case token.GEQ:
		set(tb.Ge(l, r))
	case token.SHL:
		if r.isInt() && r.ival >= 0 && r.ival < 40 {
			set(wrapInt(x.Type(), tb.Mul(l, tb.Int(int64(1)<<r.ival))))
			return
		}
		set(wrapInt(x.Type(), tb.Mul(l, v.pow2sym(st, fr, x, r))))
	case token.SHR:
		if r.isInt() && r.ival >= 0 && r.ival < 62 {
			set(tb.DivC(l, int64(1)<<r.ival))
			return
		}
		// small symbolic shift counts
		d := v.smallCases(st, fr, x, r)
		t := tb.DivC(l, int64(1)<<d[len(d)-1])
		for i := len(d) - 2; i >= 0; i-- {
			t = tb.Ite(tb.Eq(r, tb.Int(int64(d[i]))), tb.DivC(l, int64(1)<<d[i]), t)
		}
		set(t)
	case token.AND:
		if l.isInt() {
			l, r = r, l
		}
		if r.isInt() && r.ival >= 0 {
			if _, ok := pow2(r.ival + 1); ok {
				set(tb.ModC(l, r.ival+1))
				return
			}
		}
		d := tb.Decl("band", []Sort{SInt, SInt}, SInt)
		t := tb.App(d, l, r)
		st.assume(tb.Imp(tb.And(tb.Le(tb.Int(0), l), tb.Le(tb.Int(0), r)), tb.And(tb.Le(tb.Int(0), t), tb.Le(t, l), tb.Le(t, r))))
		for _, y := range [][2]*T{{l, r}, {r, l}} {
			st.assume(tb.Imp(tb.Eq(y[0], tb.Int(0)), tb.Eq(t, tb.Int(0))))
			if bits, signed, ok := intBits(x.Type()); ok && signed && bits <= 64 {
				st.assume(tb.Imp(tb.Eq(y[0], tb.Int(-1)), tb.Eq(t, y[1])))
			}
		}
		set(t)
	case token.AND_NOT:
		d := tb.Decl("bandnot", []Sort{SInt, SInt}, SInt)
		t := tb.App(d, l, r)
		st.assume(tb.Imp(tb.Eq(r, tb.Int(0)), tb.Eq(t, l)))
		if _, signed, ok := intBits(x.Type()); ok && signed {
			st.assume(tb.Imp(tb.Eq(r, tb.Int(-1)), tb.Eq(t, tb.Int(0))))
		}
		st.assume(tb.Imp(tb.And(tb.Le(tb.Int(0), l), tb.Le(tb.Int(0), r)), tb.And(tb.Le(tb.Int(0), t), tb.Le(t, l))))
		set(t)
	case token.OR, token.XOR:
		set(v.bitor(st, l, r, x.Op.String()))
	default:
		unsupported("operator %s", x.Op)
	}
}

func isBasic(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() != types.UntypedNil
}

// smallCases: the possible values of a shift count.
func (v *Verifier) smallCases(st *State, fr *Frame, ins ssa.Instruction, r *T) []int64 {
	// r = c * (x mod k)
	l := tb.toLin(r)
	if len(l.m) == 1 && l.c == 0 {
		for t, c := range l.m {
			if t.op == "mod" && c > 0 && (t.args[1].ival-1)*c <= 61 {
				var out []int64
				for i := int64(0); i < t.args[1].ival; i++ {
					out = append(out, i*c)
				}
				return out
			}
		}
	}
	unsupported("symbolic shift count")
	return nil
}

func (v *Verifier) pow2sym(st *State, fr *Frame, ins ssa.Instruction, r *T) *T {
	d := v.smallCases(st, fr, ins, r)
	t := tb.Int(int64(1) << d[len(d)-1])
	for i := len(d) - 2; i >= 0; i-- {
		t = tb.Ite(tb.Eq(r, tb.Int(d[i])), tb.Int(int64(1)<<d[i]), t)
	}
	return t
}

// pow2div: a power of two that divides t.
func pow2div(t *T, depth int) int64 {
	const top = int64(1) << 40
	val := func(c int64) int64 {
		if c == 0 {
			return top
		}
		return c & -c
	}
	if depth > 6 {
		return 1
	}
	l := tb.toLin(t)
	k := val(l.c)
	for x, c := range l.m {
		m := val(c)
		if x.op == "mod" && x.args[1].isInt() {
			// x mod n is x minus a multiple of n
			n, d := val(x.args[1].ival), pow2div(x.args[0], depth+1)
			if d < n {
				n = d
			}
			if m < top/n {
				m *= n
			}
		}
		if m < k {
			k = m
		}
	}
	return k
}

// bitor: a|b as a sum when the operands' bits are disjoint.
func (v *Verifier) bitor(st *State, a, b *T, op string) *T {
	if a.isInt() && a.ival == 0 {
		return b
	}
	if b.isInt() && b.ival == 0 {
		return a
	}
	try := func(a, b *T) *T {
		// b a multiple of 2^k, 0 <= a < 2^k
		k := pow2div(b, 0)
		if k <= 1 {
			return nil
		}
		g := tb.And(tb.Le(tb.Int(0), a), tb.Lt(a, tb.Int(k)))
		if v.dry > 0 || v.prove(st, g, v.quickMs, false).res == "unsat" {
			return tb.Add(a, b)
		}
		return nil
	}
	if r := try(a, b); r != nil {
		return r
	}
	if r := try(b, a); r != nil {
		return r
	}
	d := tb.Decl("bor"+op, []Sort{SInt, SInt}, SInt)
	t := tb.App(d, a, b)
	st.assume(tb.Imp(tb.Eq(a, tb.Int(0)), tb.Eq(t, b)))
	st.assume(tb.Imp(tb.Eq(b, tb.Int(0)), tb.Eq(t, a)))
	return t
}

func (v *Verifier) slice(st *State, fr *Frame, x *ssa.Slice) {
	xv := v.val(st, fr, x.X)
	opt := func(y ssa.Value, d *T) *T {
		if y == nil {
			return d
		}
		return v.val(st, fr, y).one()
	}
	z := tb.Int(0)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := xv.one()
		lo, hi := opt(x.Low, z), opt(x.High, Slen(s))
		v.safe(st, fr, x, "slice", tb.And(tb.Le(z, lo), tb.Le(lo, hi), tb.Le(hi, Slen(s))))
		fr.regs[x] = mkVal(x.Type(), Ssub(s, lo, hi))
	case *types.Slice:
		lo, hi := opt(x.Low, z), opt(x.High, xv.l[2])
		mx := opt(x.Max, xv.l[3])
		// stricter than Go: elements between len and cap stay out of sight
		v.safe(st, fr, x, "slice", tb.And(tb.Le(z, lo), tb.Le(lo, hi), tb.Le(hi, mx), tb.Le(mx, xv.l[3]), tb.Le(hi, xv.l[2])))
		r := mkVal(x.Type(), xv.l[0], tb.Add(xv.l[1], lo), tb.Sub(hi, lo), tb.Sub(mx, lo))
		// slicing nil gives nil: offset stays 0 there because lo = 0
		fr.regs[x] = r
	case *types.Pointer:
		at, ok := u.Elem().Underlying().(*types.Array)
		if !ok {
			unsupported("slice of %s", x.X.Type())
		}
		p := toPtr(xv)
		if p.kind != "arr" {
			unsupported("slice of array variable")
		}
		n := tb.Int(at.Len())
		lo, hi := opt(x.Low, z), opt(x.High, n)
		v.safe(st, fr, x, "slice", tb.And(tb.Le(z, lo), tb.Le(lo, hi), tb.Le(hi, n)))
		fr.regs[x] = mkVal(x.Type(), p.ref, lo, tb.Sub(hi, lo), tb.Sub(n, lo))
	default:
		unsupported("slice of %s", x.X.Type())
	}
}

func (v *Verifier) convert(st *State, fr *Frame, x *ssa.Convert) {
	xv := v.val(st, fr, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tbb, ok2 := to.(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tbb.Info()&types.IsInteger != 0 {
		t := xv.one()
		bits, signed, _ := intBits(x.Type())
		fbits, fsigned, _ := intBits(x.X.Type())
		if bits == 64 {
			if !signed && fsigned {
				if v.dry > 0 || v.prove(st, tb.Le(tb.Int(0), t), v.quickMs, false).res == "unsat" {
					fr.regs[x] = mkVal(x.Type(), t)
					return
				}
				unsupported("conversion of a possibly negative value to %s", x.Type())
			}
			if signed && !fsigned && fbits == 64 && v.dry == 0 && v.prove(st, tb.Le(t, tb.Int(math.MaxInt64)), v.quickMs, false).res != "unsat" {
				t = tb.Ite(tb.Le(t, tb.Int(math.MaxInt64)), t, freshVar("wrapped", SInt))
			}
			fr.regs[x] = mkVal(x.Type(), t)
			return
		}
		if fbits < bits && (fsigned == signed || !fsigned) {
			fr.regs[x] = mkVal(x.Type(), t)
			return
		}
		fr.regs[x] = mkVal(x.Type(), wrapInt(x.Type(), t))
		return
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		if ok2 && tbb.Info()&types.IsString != 0 {
			xv.t = x.Type()
			fr.regs[x] = xv
			return
		}
		if sl, ok := to.(*types.Slice); ok {
			s := xv.one()
			bits, _, _ := intBits(sl.Elem())
			var n *T
			arr := freshVar("conv", ArrSort(SInt, SInt))
			i := tb.BVar("ci", SInt)
			var e *T
			switch bits {
			case 8:
				n = Slen(s)
				e = Sat(s, i)
			case 32:
				n = tb.App(dRc(), s)
				e = tb.App(dRa(), s, i)
			default:
				unsupported("conversion to %s", x.Type())
			}
			st.assume(tb.Forall([]*T{i}, [][]*T{{tb.Select(arr, i)}}, tb.Imp(tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, n)), tb.Eq(tb.Select(arr, i), e))))
			st.assume(tb.Le(tb.Int(0), n))
			if bits == 8 {
				st.assume(tb.Eq(tb.App(dBstr(), arr, tb.Int(0), n), s))
			}
			fr.regs[x] = v.newSlice(st, x.Type(), sl.Elem(), n, n, []*T{arr})
			return
		}
	}
	if sl, ok := from.(*types.Slice); ok && ok2 && tbb.Info()&types.IsString != 0 {
		if bits, _, _ := intBits(sl.Elem()); bits == 8 {
			nm, so := elemHeap(sl.Elem(), 0)
			fr.regs[x] = mkVal(x.Type(), tb.App(dBstr(), tb.Select(st.get(nm, so), xv.l[0]), xv.l[1], xv.l[2]))
			return
		}
	}
	if ok2 && tbb.Info()&types.IsString != 0 && ok1 && fb.Info()&types.IsInteger != 0 {
		d := tb.Decl("runestr", []Sort{SInt}, SStr)
		fr.regs[x] = mkVal(x.Type(), tb.App(d, xv.one()))
		return
	}
	unsupported("conversion %s to %s", x.X.Type(), x.Type())
}

// boxVal: the interface value holding v.
func boxVal(v Val) *T {
	var as []Sort
	for _, l := range v.l {
		as = append(as, l.sort)
	}
	k := "box!" + typeKey(v.t)
	d := tb.Decl(k, as, SIfc)
	t := tb.App(d, v.l...)
	if groundHks[k] == nil {
		groundHks[k] = []unfolder{func(app *T) *T {
			fs := []*T{tb.Not(tb.Eq(app, sortZero(SIfc)))}
			for i, a := range app.args {
				u := tb.Decl(fmt.Sprintf("unbox!%s!%d", typeKey(v.t), i), []Sort{SIfc}, a.sort)
				fs = append(fs, tb.Eq(tb.App(u, app), a))
			}
			return tb.And(fs...)
		}}
	}
	return t
}

// unboxStr: the string in an interface built from one, if syntactically known.
func unboxStr(t *T) (*T, bool) {
	if t.op == "app" && t.name == "box!string" {
		return t.args[0], true
	}
	return nil, false
}

var profT = map[string]time.Duration{}
var profN = map[string]int{}

func prof(k string, t0 time.Time) {
	profT[k] += time.Since(t0)
	profN[k]++
}
