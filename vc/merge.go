package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Paths that part at a branch and meet again are joined where they differ in
// integer and Boolean variables only; each such variable becomes a fresh one
// and the path condition the disjunction of the alternatives.

type joinCtx struct {
	block *ssa.BasicBlock
	got   []arrival
}

type arrival struct {
	st *State
	fr *Frame
}

// joinOf: the immediate postdominator of a branch, if it is in the same loop.
func (i *fnInfo) joinOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	if i.ipdom == nil {
		i.ipdom = postDoms(b.Parent())
	}
	j := i.ipdom[b]
	if j == nil {
		return nil
	}
	if _, ok := i.loops[j]; ok {
		return nil
	}
	for _, set := range i.loops {
		if set[b] != set[j] {
			return nil
		}
	}
	return j
}

func postDoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// blocks that end in a panic do not rejoin and are ignored
	dead := make([]bool, n)
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if dead[b.Index] {
				continue
			}
			last := b.Instrs[len(b.Instrs)-1]
			d := false
			if _, ok := last.(*ssa.Panic); ok {
				d = true
			} else if len(b.Succs) > 0 {
				d = true
				for _, s := range b.Succs {
					if !dead[s.Index] {
						d = false
					}
				}
			}
			if d {
				dead[b.Index] = true
				ch = true
			}
		}
	}
	pd := make([]map[int]bool, n)
	for _, b := range fn.Blocks {
		if dead[b.Index] {
			continue
		}
		pd[b.Index] = map[int]bool{}
		if len(b.Succs) == 0 {
			pd[b.Index][b.Index] = true
			continue
		}
		for k := 0; k < n; k++ {
			pd[b.Index][k] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for k := n - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			if dead[k] || len(b.Succs) == 0 {
				continue
			}
			var m map[int]bool
			for _, s := range b.Succs {
				if dead[s.Index] {
					continue
				}
				if m == nil {
					m = map[int]bool{}
					for x := range pd[s.Index] {
						m[x] = true
					}
				} else {
					for x := range m {
						if !pd[s.Index][x] {
							delete(m, x)
						}
					}
				}
			}
			m[k] = true
			if len(m) != len(pd[k]) {
				pd[k] = m
				ch = true
			}
		}
	}
	r := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for _, b := range fn.Blocks {
		if dead[b.Index] {
			continue
		}
		// the immediate one is postdominated by all other strict postdominators
		for x := range pd[b.Index] {
			if x == b.Index {
				continue
			}
			all := true
			for y := range pd[b.Index] {
				if y != b.Index && !pd[x][y] {
					all = false
				}
			}
			if all {
				r[b] = fn.Blocks[x]
			}
		}
	}
	return r
}

// branch runs both sides of a conditional.
func (v *Verifier) branch(st *State, fr *Frame, b *ssa.BasicBlock, c *T) {
	j := fr.info.joinOf(b)
	if v.noMerge {
		j = nil
	}
	var jc *joinCtx
	if j != nil {
		jc = &joinCtx{block: j}
		fr.joins = append(fr.joins[:len(fr.joins):len(fr.joins)], jc)
	}
	base := len(st.pc)
	s1, f1 := st.clone(), fr.clone()
	s1.trail = fmt.Sprintf("%s,%dt", st.trail, b.Index)
	st.trail = fmt.Sprintf("%s,%df", st.trail, b.Index)
	s1.assume(c)
	st.assume(tb.Not(c))
	ok1 := v.feasible(s1)
	if ok1 {
		v.paths++
		v.enter(s1, f1, b.Succs[0], b)
	}
	if !ok1 || v.feasible(st) {
		v.enter(st, fr, b.Succs[1], b)
	}
	if jc == nil {
		return
	}
	got := jc.got
	for k := 0; k < len(got); k++ {
		for l := k + 1; l < len(got); l++ {
			if m, ok := v.mergeTwo(got[k], got[l], base, j); ok {
				got[k] = m
				got = append(got[:l], got[l+1:]...)
				l--
			}
		}
	}
	for _, a := range got {
		a.fr.joins = a.fr.joins[:len(a.fr.joins)-1]
		v.arrive(a.st, a.fr, j)
	}
}

// arrive continues at a block whose phis are set.
func (v *Verifier) arrive(st *State, fr *Frame, b *ssa.BasicBlock) {
	if n := len(fr.joins); n > 0 && fr.joins[n-1].block == b {
		jc := fr.joins[n-1]
		jc.got = append(jc.got, arrival{st, fr})
		return
	}
	v.run(st, fr, b, 0)
}

func sameVal(a, b Val) bool {
	if (a.ptr == nil) != (b.ptr == nil) || a.ptr != nil && *a.ptr != *b.ptr || a.clo != b.clo || a.iter != b.iter || a.mth != b.mth || len(a.l) != len(b.l) || len(a.tup) != len(b.tup) {
		return false
	}
	for i := range a.l {
		if a.l[i] != b.l[i] {
			return false
		}
	}
	for i := range a.tup {
		if !sameVal(a.tup[i], b.tup[i]) {
			return false
		}
	}
	return true
}

func scalar(a Val) bool {
	return a.ptr == nil && a.clo == nil && a.iter == nil && a.tup == nil && !a.mth && len(a.l) == 1 && (a.l[0].sort == SInt || a.l[0].sort == SBool)
}

func (v *Verifier) mergeTwo(a, b arrival, base int, j *ssa.BasicBlock) (arrival, bool) {
	s, t := a.st, b.st
	if s.alloc != t.alloc || s.werr != t.werr || s.werrv != t.werrv || len(s.loopsp) != len(t.loopsp) || len(a.fr.loops) != len(b.fr.loops) || len(s.heap) != len(t.heap) {
		// heaps that were only read on one side are the same as at the start
		if len(s.heap) == len(t.heap) {
			return a, false
		}
		if s.alloc != t.alloc || s.werr != t.werr || s.werrv != t.werrv || len(s.loopsp) != len(t.loopsp) || len(a.fr.loops) != len(b.fr.loops) {
			return a, false
		}
	}
	for i := range s.loopsp {
		if s.loopsp[i] != t.loopsp[i] {
			return a, false
		}
	}
	for k, x := range s.heap {
		if y, ok := t.heap[k]; ok && x != y {
			return a, false
		} else if !ok && x != tb.Var(k+"@0", x.sort) {
			return a, false
		}
	}
	for k, y := range t.heap {
		if _, ok := s.heap[k]; !ok && y != tb.Var(k+"@0", y.sort) {
			return a, false
		}
	}
	type pair struct {
		x, y Val
		set  func(Val)
		name string
	}
	m, f := s.clone(), a.fr.clone()
	for k, y := range t.heap {
		m.heap[k] = y
	}
	var ps []pair
	var ck []*Cell
	for k := range s.cells {
		ck = append(ck, k)
	}
	sort.Slice(ck, func(i, j int) bool { return ck[i].id < ck[j].id })
	for _, k := range ck {
		x := s.cells[k]
		y, ok := t.cells[k]
		if !ok || sameVal(x, y) {
			continue
		}
		if !scalar(x) || !scalar(y) {
			return a, false
		}
		k := k
		ps = append(ps, pair{x, y, func(z Val) { m.cells[k] = z }, k.name})
	}
	for k, y := range t.cells {
		if _, ok := s.cells[k]; !ok {
			m.cells[k] = y
		}
	}
	// names first: a merged phi overrides
	for n, x := range f.names {
		y, ok := b.fr.names[n]
		if !ok || x.src != y.src || x.cell != y.cell || !sameVal(x.val, y.val) {
			if x.cell != nil && y.cell != nil && *x.cell == *y.cell {
				continue
			}
			delete(f.names, n)
		}
	}
	for r, y := range b.fr.regs {
		if _, ok := f.regs[r]; !ok {
			f.regs[r] = y
		}
	}
	for _, ins := range j.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		x, y := a.fr.regs[p], b.fr.regs[p]
		if sameVal(x, y) {
			if p.Comment != "" {
				f.names[p.Comment] = Named{val: x, src: p}
			}
			continue
		}
		if !scalar(x) || !scalar(y) {
			return a, false
		}
		ps = append(ps, pair{x, y, func(z Val) {
			f.regs[p] = z
			if p.Comment != "" {
				f.names[p.Comment] = Named{val: z, src: p}
			}
		}, phiName(p)})
	}
	if len(ps) > 6 {
		return a, false
	}
	d1, d2 := append([]*T{}, s.pc[base:]...), append([]*T{}, t.pc[base:]...)
	// what holds on both sides stays outside the disjunction
	in2 := map[*T]bool{}
	for _, x := range d2 {
		in2[x] = true
	}
	var common, r1, r2 []*T
	in1 := map[*T]bool{}
	for _, x := range d1 {
		in1[x] = true
		if in2[x] {
			common = append(common, x)
		} else {
			r1 = append(r1, x)
		}
	}
	for _, x := range d2 {
		if !in1[x] {
			r2 = append(r2, x)
		}
	}
	m.pc = append(append([]*T{}, s.pc[:base]...), common...)
	for _, p := range ps {
		z := Val{t: p.x.t, l: []*T{freshVar(p.name, p.x.l[0].sort)}}
		r1 = append(r1, tb.Eq(z.l[0], p.x.l[0]))
		r2 = append(r2, tb.Eq(z.l[0], p.y.l[0]))
		if z.t != nil {
			m.assume(typeFacts(z))
		}
		p.set(z)
	}
	m.trail = s.trail + "+" + t.trail
	m.assume(tb.Or(tb.And(r1...), tb.And(r2...)))
	return arrival{m, f}, true
}
