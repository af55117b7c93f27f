package main

import (
	"go/ast"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// pureVal evaluates an instruction of the loop at its header, as far as it has
// no effect there. What it gives is only used to form candidate invariants and
// measures, so it need not be exact.
func (c *LoopCtx) pureVal(v *Verifier, st *State, fr *Frame, x ssa.Value, bind map[ssa.Value]Val, varies *bool, depth int) Val {
	if depth > 12 {
		unsupported("too deep")
	}
	rec := func(y ssa.Value) Val { return c.pureVal(v, st, fr, y, bind, varies, depth+1) }
	if r, ok := bind[x]; ok {
		return r
	}
	inHelper := bind != nil
	if p, is := x.(*ssa.Phi); is && !inHelper {
		if p.Block() == c.header {
			*varies = true
			return fr.regs[p]
		}
	}
	switch x.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return v.val(st, fr, x)
	}
	if !inHelper {
		if ins, is := x.(ssa.Instruction); !is || !c.blocks[ins.Block()] {
			if val, have := c.fe.regs[x]; have {
				return val
			}
			unsupported("not at hand")
		}
	}
	switch y := x.(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			p := toPtr(rec(y.X))
			if p.kind == "cell" && c.cells[p.cell] {
				*varies = true
			}
			return st.loadPtr(p)
		}
	case *ssa.FieldAddr:
		p := *toPtr(rec(y.X))
		stt := y.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off, _ := fieldOff(stt, y.Field)
		p.off += off
		p.typ = stt.Field(y.Field).Type()
		return Val{t: y.Type(), ptr: &p}
	case *ssa.Field:
		sv := rec(y.X)
		off, n := fieldOff(y.X.Type().Underlying().(*types.Struct), y.Field)
		return Val{t: y.Type(), l: sv.l[off : off+n]}
	case *ssa.BinOp:
		a, b := rec(y.X).one(), rec(y.Y).one()
		if a.sort == SInt && b.sort == SInt {
			switch y.Op {
			case token.ADD:
				return mkVal(y.Type(), tb.Add(a, b))
			case token.SUB:
				return mkVal(y.Type(), tb.Sub(a, b))
			case token.MUL:
				return mkVal(y.Type(), tb.Mul(a, b))
			}
		}
	case *ssa.Convert:
		if _, _, ok := intBits(y.X.Type()); ok {
			if _, _, ok := intBits(y.Type()); ok {
				return mkVal(y.Type(), rec(y.X).one())
			}
		}
	case *ssa.ChangeType:
		r := rec(y.X)
		r.t = y.Type()
		return r
	case *ssa.Call:
		cc := y.Common()
		if bi, is := cc.Value.(*ssa.Builtin); is {
			if bi.Name() == "len" {
				return v.lenOf(rec(cc.Args[0]), types.Typ[types.Int])
			}
			break
		}
		if cc.Signature().Results().Len() != 1 {
			break
		}
		var args []Val
		var con *Contract
		var fn *ssa.Function
		if cc.IsInvoke() {
			args = append(args, rec(cc.Value))
			con = spec.contracts["ext."+ifaceKey(cc.Value.Type())+"."+cc.Method.Name()]
		} else if fn = cc.StaticCallee(); fn != nil {
			if inRepo(fn) && fn.Blocks != nil {
				con = contractFor(fn)
			} else {
				con = spec.contracts[extKey(fn)]
			}
		}
		for _, a := range cc.Args {
			args = append(args, rec(a))
		}
		if con != nil {
			// a contract that says what the result is equal to
			for _, cl := range con.ensures {
				if e := resultIs(cl.e, con.results[0]); e != nil {
					env := v.contractEnv(con, bindParams(con, args), st, st)
					r := env.eval(e)
					r.t = y.Type()
					return r
				}
			}
			break
		}
		if fn != nil && inRepo(fn) && len(fn.Blocks) == 1 && len(fn.FreeVars) == 0 {
			if ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return); ok {
				b2 := map[ssa.Value]Val{}
				for i, p := range fn.Params {
					b2[p] = args[i]
				}
				return c.pureVal(v, st, fr, ret.Results[0], b2, varies, depth+1)
			}
		}
	}
	unsupported("not a plain expression")
	return Val{}
}

// resultIs: the E of a clause "r == E" or of a conjunct of that form.
func resultIs(e ast.Expr, r string) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return resultIs(x.X, r)
	case *ast.BinaryExpr:
		if x.Op == token.LAND {
			if a := resultIs(x.X, r); a != nil {
				return a
			}
			return resultIs(x.Y, r)
		}
		if id, ok := x.X.(*ast.Ident); ok && x.Op == token.EQL && id.Name == r {
			return x.Y
		}
	}
	return nil
}

// pureSel: an integer expression of the loop, as a candidate's operand.
func (c *LoopCtx) pureSel(v *Verifier, x ssa.Value) (s sel, varies, ok bool) {
	if _, _, isint := intBits(x.Type()); !isint {
		return
	}
	try := func(st *State, fr *Frame, vr *bool) (r Val, ok bool) {
		defer func() {
			if e := recover(); e != nil {
				switch e.(type) {
				case specErr, unsup:
					ok = false
					return
				}
				panic(e)
			}
		}()
		return c.pureVal(v, st, fr, x, nil, vr, 0), true
	}
	r, ok := try(c.entry, c.fe, &varies)
	if !ok || len(r.l) != 1 || r.l[0].sort != SInt {
		return s, false, false
	}
	return sel{desc: x.Name(), typ: x.Type(), val: func(st *State, fr *Frame) Val {
		var b bool
		return c.pureVal(v, st, fr, x, nil, &b, 0)
	}}, varies, true
}
