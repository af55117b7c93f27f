package main

import (
	"fmt"
	"go/types"
	"strings"
)

// State is a symbolic machine state.
type State struct {
	heap  map[string]*T
	cells map[*Cell]Val
	pc    []*T
	alloc *T
	// tracking
	rec    *recorder // set while evaluating definitions
	stores *[]storeRec
	werr   bool // a write to an io.Writer has failed on this path
	werrv  *T
	log    []string
	loopsp []*LoopCtx // loops active on this path
	trail  string     // branches taken
}

type recorder struct {
	names []string
	sorts map[string]Sort
}

type storeRec struct {
	heap string
	ref  *T // nil: scalar heap (globals, ghost)
	cell *Cell
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*T, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[*Cell]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	return &n
}

func (s *State) assume(f *T) {
	if f.isTrue() {
		return
	}
	if f.op == "and" {
		for _, x := range f.args {
			s.assume(x)
		}
		return
	}
	s.pc = append(s.pc, f)
}

var heapSorts = map[string]Sort{}
var heapLeaf = map[string]Leaf{}

// get returns the current term of a heap array (or scalar).
func (s *State) get(name string, srt Sort) *T {
	if t, ok := s.heap[name]; ok {
		return t
	}
	heapSorts[name] = srt
	if s.rec != nil {
		if _, ok := s.rec.sorts[name]; !ok {
			s.rec.names = append(s.rec.names, name)
			s.rec.sorts[name] = srt
		}
		t := tb.Var("hp!"+name, srt)
		s.heap[name] = t
		return t
	}
	t := tb.Var(name+"@0", srt)
	heapTypeAxiom(name, t)
	if lf, ok := heapLeaf[name]; ok && strings.HasPrefix(name, "F:") && !typedHeap["ref:"+t.name] {
		_, isPtr := lf.typ.Underlying().(*types.Pointer)
		if isPtr && withLibs || lf.typ == sliceRef { // what memory refers to has been allocated
			typedHeap["ref:"+t.name] = true
			x := tb.BVar("q1", SInt)
			e := tb.Select(t, x)
			addAxiom("ref:"+t.name, tb.Forall([]*T{x}, [][]*T{{e}}, tb.Lt(e, tb.Var("alloc@0", SInt))), t.name)
		}
	}
	s.heap[name] = t
	return t
}

var freshN int

func freshName(hint string) string {
	freshN++
	return fmt.Sprintf("%s!%d", hint, freshN)
}

var freshSorts = map[string]Sort{}

// freshVar: a new variable. Numbers are reused between attempts at a loop, so
// the sort becomes part of the name where it differs.
func freshVar(hint string, s Sort) *T {
	n := freshName(hint)
	if o, ok := freshSorts[n]; ok && o != s {
		n += "~" + strings.NewReplacer("(", "", ")", "", " ", "").Replace(string(s))
	} else {
		freshSorts[n] = s
	}
	return tb.Var(n, s)
}

func freshHeap(name string) *T {
	t := freshVar(name, heapSorts[name])
	heapTypeAxiom(name, t)
	return t
}

var typedHeap = map[string]bool{}

// heapTypeAxiom: every element of a heap array is in the range of its type.
func heapTypeAxiom(name string, t *T) {
	lf, ok := heapLeaf[name]
	if !ok || typedHeap[t.name] {
		return
	}
	typedHeap[t.name] = true
	if t.sort == lf.sort {
		if f := rangeFact(lf, t); !f.isTrue() {
			addAxiom("type:"+t.name, f, t.name)
		}
		return
	}
	k1, v1 := t.sort.split()
	x := tb.BVar("q1", k1)
	e := tb.Select(t, x)
	if v1 == lf.sort {
		if f := rangeFact(lf, e); !f.isTrue() {
			addAxiom("type:"+t.name, tb.Forall([]*T{x}, [][]*T{{e}}, f), t.name)
		}
		if strings.HasPrefix(name, "MV:lru") {
			return
		}
		return
	}
	k2, v2 := v1.split()
	if v2 != lf.sort {
		return
	}
	y := tb.BVar("q2", k2)
	e2 := tb.Select(e, y)
	if f := rangeFact(lf, e2); !f.isTrue() {
		addAxiom("type:"+t.name, tb.Forall([]*T{x, y}, [][]*T{{e2}}, f), t.name)
	}
}

// ---- heap names

func objHeap(root types.Type, i int) (string, Sort) {
	lf := layout(root)[i]
	n := "F:" + typeKey(root) + "#" + lf.path
	if _, ok := heapLeaf[n]; !ok {
		heapLeaf[n] = lf
	}
	return n, ArrSort(SInt, lf.sort)
}

func elemHeap(et types.Type, i int) (string, Sort) {
	lf := layout(et)[i]
	n := "E:" + typeKey(et) + "#" + lf.path
	if _, ok := heapLeaf[n]; !ok {
		heapLeaf[n] = lf
	}
	return n, ArrSort(SInt, ArrSort(SInt, lf.sort))
}

// mapKeySort: maps are keyed by a single leaf.
func mapKeySort(m *types.Map) Sort {
	l := layout(m.Key())
	if len(l) != 1 {
		unsupported("map key type %s", m.Key())
	}
	return l[0].sort
}

func mapDomHeap(m *types.Map) (string, Sort) {
	return "MD:" + typeKey(m), ArrSort(SInt, ArrSort(mapKeySort(m), SBool))
}

func mapValHeap(m *types.Map, i int) (string, Sort) {
	lf := layout(m.Elem())[i]
	n := "MV:" + typeKey(m) + "#" + lf.path
	if _, ok := heapLeaf[n]; !ok {
		heapLeaf[n] = lf
	}
	return n, ArrSort(SInt, ArrSort(mapKeySort(m), lf.sort))
}

func globHeap(pkg, name string, t types.Type, i int) (string, Sort) {
	lf := layout(t)[i]
	n := "G:" + pkg + "." + name + "#" + lf.path
	if _, ok := heapLeaf[n]; !ok {
		heapLeaf[n] = lf
	}
	return n, lf.sort
}

// ---- loads

// loadPtr reads through an address.
func (s *State) loadPtr(p *Ptr) Val {
	v := Val{t: p.typ}
	n := len(layout(p.typ))
	switch p.kind {
	case "cell":
		c, ok := s.cells[p.cell]
		if !ok {
			c = zeroVal(p.cell.typ)
		}
		if p.off == 0 && n == len(c.l) {
			c.t = p.typ
			return c
		}
		v.l = c.l[p.off : p.off+n]
	case "obj":
		for i := 0; i < n; i++ {
			nm, so := objHeap(p.root, p.off+i)
			v.l = append(v.l, tb.Select(s.get(nm, so), p.ref))
		}
	case "elem":
		for i := 0; i < n; i++ {
			nm, so := elemHeap(p.root, p.off+i)
			v.l = append(v.l, tb.Select(tb.Select(s.get(nm, so), p.ref), p.idx))
		}
	case "tab": // element of a constant array
		es := world.frozen[p.glob].elem
		rows := make([]Val, len(es))
		for i, e := range es {
			rows[i] = constToVal(p.glob.Name(), e.typ, e)
		}
		for j := 0; j < n; j++ {
			at := func(i int) *T { return rows[i].l[p.off+j] }
			t := at(len(rows) - 1)
			for i := len(rows) - 2; i >= 0; i-- { // one case for a run of equal elements
				if at(i) != at(i+1) {
					t = tb.Ite(tb.Le(p.idx, tb.Int(int64(i))), at(i), t)
				}
			}
			v.l = append(v.l, t)
		}
	case "glob":
		if c, ok := world.frozen[p.glob]; ok {
			fv := frozenVal(p.glob, c)
			v.l = fv.l[p.off : p.off+n]
			v.ptr = nil
			return v
		}
		gt := p.glob.Type().(*types.Pointer).Elem()
		for i := 0; i < n; i++ {
			nm, so := globHeap(p.glob.Pkg.Pkg.Name(), p.glob.Name(), gt, p.off+i)
			v.l = append(v.l, s.get(nm, so))
		}
	default:
		unsupported("load through %s pointer", p.kind)
	}
	return v
}

// refFacts: references found in memory were allocated before.
func (s *State) refFacts(v Val) *T {
	if v.t == nil || v.ptr != nil {
		return tb.Bool(true)
	}
	var fs []*T
	for i, lf := range layout(v.t) {
		if i >= len(v.l) {
			break
		}
		switch lf.typ.Underlying().(type) {
		case *types.Pointer, *types.Map:
			fs = append(fs, tb.Lt(v.l[i], s.alloc))
		case *types.Basic:
			if lf.path == "base" || strings.HasSuffix(lf.path, ".base") {
				fs = append(fs, tb.Lt(v.l[i], s.alloc))
			}
		}
	}
	return tb.And(fs...)
}

// toPtr turns a pointer value into an address.
func toPtr(v Val) *Ptr {
	if v.ptr != nil {
		return v.ptr
	}
	pt, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		unsupported("not a pointer: %s", v.t)
	}
	return &Ptr{kind: "obj", ref: v.one(), root: pt.Elem(), typ: pt.Elem()}
}

// mapGet: value and presence.
func (s *State) mapGet(m *types.Map, ref, key *T) (Val, *T) {
	v := Val{t: m.Elem()}
	for i := range layout(m.Elem()) {
		nm, so := mapValHeap(m, i)
		v.l = append(v.l, tb.Select(tb.Select(s.get(nm, so), ref), key))
	}
	nm, so := mapDomHeap(m)
	return v, tb.Select(tb.Select(s.get(nm, so), ref), key)
}

// mapFacts: absent keys have the zero value; a nil map is empty.
func (s *State) mapFacts(m *types.Map, ref, key *T) *T {
	v, ok := s.mapGet(m, ref, key)
	var fs []*T
	z := zeroVal(m.Elem())
	for i := range v.l {
		fs = append(fs, tb.Imp(tb.Not(ok), tb.Eq(v.l[i], z.l[i])))
	}
	fs = append(fs, tb.Imp(tb.Eq(ref, tb.Int(0)), tb.Not(ok)))
	return tb.And(fs...)
}
