package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A package's initialization, as far as it sets variables that are not
// constant: what such a variable's initializer depends on, and every call that
// may change one. The rest (the data tables, whose contents are read off as
// constants) is left out.

func isPkgInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic != "" && fn.Parent() == nil && fn.Signature.Recv() == nil
}

// initSkip: the instructions of the package initializer to leave out.
func initSkip(fn *ssa.Function) map[ssa.Instruction]bool {
	need := map[ssa.Instruction]bool{}
	var work []ssa.Instruction
	add := func(i ssa.Instruction) {
		if !need[i] {
			need[i] = true
			work = append(work, i)
		}
	}
	root := func(x ssa.Value) ssa.Value {
		for {
			switch y := x.(type) {
			case *ssa.FieldAddr:
				x = y.X
			case *ssa.IndexAddr:
				x = y.X
			default:
				return x
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.Phi:
				add(ins)
			case *ssa.Store:
				if g, ok := root(x.Addr).(*ssa.Global); ok {
					if strings.HasPrefix(g.Name(), "init$") {
						continue
					}
					if _, fz := world.frozen[g]; fz {
						continue
					}
					add(ins)
				}
			case *ssa.MapUpdate:
				if g, ok := x.Map.(*ssa.UnOp); ok && g.Op == token.MUL {
					add(ins)
				}
			case *ssa.Call:
				if c := x.Common().StaticCallee(); c != nil && inRepo(c) {
					if isPkgInit(c) && spec.contracts[fnKey(c)] == nil {
						continue // tables only
					}
					add(ins)
				} else if c == nil {
					add(ins)
				}
			}
		}
	}
	for len(work) > 0 {
		ins := work[len(work)-1]
		work = work[:len(work)-1]
		for _, op := range ins.Operands(nil) {
			y, ok := (*op).(ssa.Instruction)
			if !ok {
				continue
			}
			add(y)
			// what is stored in a variable that is needed
			v := root((*op).(ssa.Value))
			if rs := v.Referrers(); rs != nil {
				for _, r := range *rs {
					switch z := r.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr:
						for _, rr := range *z.(ssa.Value).Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == z.(ssa.Value) {
								add(rr)
							}
						}
					case *ssa.Store:
						if z.Addr == v {
							add(r)
						}
					case *ssa.MapUpdate:
						if z.Map == v {
							add(r)
						}
					}
				}
			}
		}
	}
	skip := map[ssa.Instruction]bool{}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if !need[ins] {
				skip[ins] = true
			}
		}
	}
	return skip
}

// initStart: where the initializer begins, after the test whether it has run
// already; package variables are zero there.
func (v *Verifier) initStart(st *State) *ssa.BasicBlock {
	for _, m := range fnPkg(v.fn).Members {
		if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
			if cv, fz := world.frozen[g]; fz {
				if strings.HasSuffix(cv.call, "lru.New") {
					// a new cache is empty (contract of the library)
					val := frozenVal(g, cv)
					nm, so := lruHeap(val.t, true)
					k := tb.BVar("k", SStr)
					e := tb.Select(tb.Select(st.get(nm, so), val.one()), k)
					st.assume(tb.Forall([]*T{k}, [][]*T{{e}}, tb.Not(e)))
				}
				continue
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			p := &Ptr{kind: "glob", glob: g, typ: t}
			cur := st.loadPtr(p)
			for i, lf := range layout(t) {
				if i < len(cur.l) {
					st.assume(tb.Eq(cur.l[i], sortZero(lf.sort)))
				}
			}
		}
	}
	if f, ok := v.fn.Blocks[0].Instrs[len(v.fn.Blocks[0].Instrs)-1].(*ssa.If); ok {
		_ = f
		return v.fn.Blocks[0].Succs[1]
	}
	return v.fn.Blocks[0]
}
