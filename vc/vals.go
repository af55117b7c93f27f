package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unsup is raised for code outside the verifier's reach.
type unsup struct{ msg string }

func unsupported(f string, a ...any) { panic(unsup{fmt.Sprintf(f, a...)}) }

// Leaf is one scalar component of a type.
type Leaf struct {
	path string
	sort Sort
	typ  types.Type // basic/pointer/map/... type of the component; slices have 4 leaves
}

// the type of a slice's reference to its memory
var sliceRef = types.NewNamed(types.NewTypeName(0, nil, "sliceref", nil), types.Typ[types.Int], nil)

var layouts = map[string][]Leaf{}

// typeKey names a type; identical types (aliases, byte and uint8) get the same name.
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Basic:
		return types.Typ[u.Kind()].Name()
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]", u.Len()) + typeKey(u.Elem())
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	case *types.Named:
		n := u.Obj().Name()
		if u.Obj().Pkg() != nil {
			n = u.Obj().Pkg().Name() + "." + n
			if p := u.Obj().Parent(); p != nil && p != u.Obj().Pkg().Scope() {
				n += fmt.Sprintf("@%d", u.Obj().Pos()) // a type local to a function
			}
		}
		if a := u.TypeArgs(); a.Len() > 0 {
			var l []string
			for i := 0; i < a.Len(); i++ {
				l = append(l, typeKey(a.At(i)))
			}
			n += "[" + strings.Join(l, ", ") + "]"
		}
		return n
	case *types.Struct:
		var l []string
		for i := 0; i < u.NumFields(); i++ {
			l = append(l, u.Field(i).Name()+" "+typeKey(u.Field(i).Type()))
		}
		return "struct{" + strings.Join(l, "; ") + "}"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ghost string content of library buffer types
func ghostBuf(t types.Type) bool {
	k := typeKey(t)
	return k == "strings.Builder" || k == "bytes.Buffer"
}

func layout(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := layouts[k]; ok {
		return l
	}
	l := layout0(t)
	layouts[k] = l
	return l
}

func layout0(t types.Type) []Leaf {
	if ghostBuf(t) {
		return []Leaf{{"text", SStr, types.Typ[types.String]}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, t}}
		}
		unsupported("type %s", t)
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", SInt, t}}
	case *types.Slice:
		i := types.Typ[types.Int]
		return []Leaf{{"base", SInt, sliceRef}, {"off", SInt, i}, {"len", SInt, i}, {"cap", SInt, i}}
	case *types.Interface:
		return []Leaf{{"", SIfc, t}}
	case *types.Signature:
		return []Leaf{{"", SFn, t}}
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && world.tpkgs[n.Obj().Pkg().Name()] != n.Obj().Pkg() {
			unsupported("library struct %s by value", t)
		}
		var r []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if ownObject(f) {
				continue
			}
			for _, l := range layout(f.Type()) {
				p := f.Name()
				if l.path != "" {
					p += "." + l.path
				}
				r = append(r, Leaf{p, l.sort, l.typ})
			}
		}
		return r
	case *types.Array:
		if u.Len() > 64 {
			unsupported("array type %s by value", t)
		}
		var r []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range layout(u.Elem()) {
				p := fmt.Sprint(i)
				if l.path != "" {
					p += "." + l.path
				}
				r = append(r, Leaf{p, l.sort, l.typ})
			}
		}
		return r
	case *types.Tuple:
		var r []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range layout(u.At(i).Type()) {
				r = append(r, Leaf{fmt.Sprint(i) + "." + l.path, l.sort, l.typ})
			}
		}
		return r
	}
	unsupported("type %s", t)
	return nil
}

// ownObject: the field is a struct whose address is kept among references to
// that struct type (the list head of package lru's list). Such a field is an
// object of its own: an object with one takes two references, r for itself and
// r+1 for the field.
func ownObject(f *types.Var) bool {
	return withLibs && f.Name() == "root" && f.Pkg() != nil && f.Pkg().Path() == "github.com/ilius/go-lru/internal"
}

func ownField(t types.Type) types.Type {
	if st, ok := t.Underlying().(*types.Struct); ok && withLibs {
		for i := 0; i < st.NumFields(); i++ {
			if ownObject(st.Field(i)) {
				return st.Field(i).Type()
			}
		}
	}
	return nil
}

// fieldOff: leaf offset and count of a struct field.
func fieldOff(st *types.Struct, idx int) (off, n int) {
	for i := 0; i < idx; i++ {
		if ownObject(st.Field(i)) {
			continue
		}
		off += len(layout(st.Field(i).Type()))
	}
	return off, len(layout(st.Field(idx).Type()))
}

// Val is a symbolic value.
type Val struct {
	t    types.Type
	l    []*T
	clo  *Closure
	ptr  *Ptr // for pointers that are not plain object references
	tup  []Val
	iter *Iter
	mth  bool // spec value without Go type (t may be nil)
}

type Closure struct {
	fn   *ssa.Function
	free []Val
}

// Ptr is an address.
type Ptr struct {
	kind string // "cell", "obj", "elem", "glob", "arr"
	cell *Cell
	ref  *T         // obj: reference; elem/arr: base
	root types.Type // obj: type of the whole object; elem: element type
	idx  *T         // elem
	glob *ssa.Global
	off  int        // leaf offset inside root
	typ  types.Type // type of what is pointed to
}

// Cell is a local variable that is not lifted to a register.
type Cell struct {
	name string
	typ  types.Type
	id   int
}

// Iter is a range iterator over a map or string.
type Iter struct {
	isMap bool
	m     Val
	cell  *Cell // ghost: visited set (map) or position (string)
	dom   *T    // domain at the start
}

func (v Val) one() *T {
	if len(v.l) != 1 {
		panic(fmt.Sprintf("value with %d leaves where 1 is needed (type %v)", len(v.l), v.t))
	}
	return v.l[0]
}

func mkVal(t types.Type, l ...*T) Val { return Val{t: t, l: l} }

func mathVal(x *T) Val { return Val{l: []*T{x}, mth: true} }

func sortZero(s Sort) *T {
	switch s {
	case SInt:
		return tb.Int(0)
	case SBool:
		return tb.Bool(false)
	case SStr:
		return strLit("")
	case SIfc:
		return tb.Var("nil!I", SIfc)
	case SFn:
		return tb.Var("nil!Fn", SFn)
	}
	_, v := s.split()
	return tb.ConstArr(s, sortZero(v))
}

func zeroVal(t types.Type) Val {
	if tu, ok := t.(*types.Tuple); ok {
		v := Val{t: t}
		for i := 0; i < tu.Len(); i++ {
			v.tup = append(v.tup, zeroVal(tu.At(i).Type()))
		}
		return v
	}
	v := Val{t: t}
	for _, lf := range layout(t) {
		v.l = append(v.l, sortZero(lf.sort))
	}
	return v
}

// ---- integers

func intBits(t types.Type) (bits int, signed bool, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	}
	return 0, false, false
}

// rangeFact: the type invariant of one leaf.
func rangeFact(lf Leaf, x *T) *T {
	if lf.sort != SInt {
		return tb.Bool(true)
	}
	if strings.HasSuffix(lf.path, "len") || strings.HasSuffix(lf.path, "cap") || strings.HasSuffix(lf.path, "off") {
		if b, ok := lf.typ.(*types.Basic); ok && b.Kind() == types.Int {
			return tb.Le(tb.Int(0), x)
		}
	}
	bits, signed, ok := intBits(lf.typ)
	if !ok {
		return tb.Bool(true)
	}
	if bits == 64 {
		if !signed {
			return tb.Le(tb.Int(0), x)
		}
		return tb.Bool(true)
	}
	lo, hi := int64(0), int64(1)<<bits-1
	if signed {
		lo, hi = -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
	}
	return tb.And(tb.Le(tb.Int(lo), x), tb.Le(x, tb.Int(hi)))
}

// typeFacts of a whole value: ranges and slice shape.
func typeFacts(v Val) *T {
	if v.tup != nil {
		var fs []*T
		for _, x := range v.tup {
			fs = append(fs, typeFacts(x))
		}
		return tb.And(fs...)
	}
	if v.t == nil || v.ptr != nil || v.iter != nil {
		return tb.Bool(true)
	}
	ls := layout(v.t)
	var fs []*T
	for i, lf := range ls {
		if i < len(v.l) {
			fs = append(fs, rangeFact(lf, v.l[i]))
		}
	}
	fs = append(fs, sliceShape(v.t, v.l)...)
	return tb.And(fs...)
}

func sliceShape(t types.Type, l []*T) []*T {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		// 0 <= len <= cap; a nil slice (base 0) is empty
		return []*T{tb.Le(l[2], l[3]), tb.Imp(tb.Eq(l[0], tb.Int(0)), tb.And(tb.Eq(l[3], tb.Int(0)), tb.Eq(l[1], tb.Int(0))))}
	case *types.Struct:
		if ghostBuf(t) {
			return nil
		}
		var r []*T
		for i := 0; i < u.NumFields(); i++ {
			o, n := fieldOff(u, i)
			r = append(r, sliceShape(u.Field(i).Type(), l[o:o+n])...)
		}
		return r
	}
	return nil
}

// wrapInt reduces a mathematical result to the range of a sized integer type.
// int, int64 and uint64 are kept mathematical (a stated assumption), except
// that conversions to uint64/uint wrap negative values.
func wrapInt(t types.Type, x *T) *T {
	bits, signed, ok := intBits(t)
	if !ok || bits == 64 {
		return x
	}
	if x.isInt() {
		lo, hi := int64(0), int64(1)<<bits-1
		if signed {
			lo, hi = -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
		}
		if x.ival >= lo && x.ival <= hi {
			return x
		}
	}
	if signed {
		h := int64(1) << (bits - 1)
		return tb.AddC(tb.ModC(tb.AddC(x, h), int64(1)<<bits), -h)
	}
	return tb.ModC(x, int64(1)<<bits)
}

// ---- constants

func constTerm(t types.Type, c constant.Value) *T {
	switch c.Kind() {
	case constant.Bool:
		return tb.Bool(constant.BoolVal(c))
	case constant.String:
		return strLit(constant.StringVal(c))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			unsupported("string(int) constant")
		}
		v, ok := constant.Int64Val(c)
		if !ok {
			unsupported("integer constant %s", c)
		}
		return tb.Int(v)
	}
	unsupported("constant %s", c)
	return nil
}

// ---- string literals

var (
	litByText = map[string]*T{}
	litText   = map[string]string{} // symbol name -> text
)

func strLit(s string) *T {
	if t, ok := litByText[s]; ok {
		return t
	}
	n := fmt.Sprintf("lit!%d", len(litByText))
	if s == "" {
		n = "lit!empty"
	}
	t := tb.Var(n, SStr)
	litByText[s] = t
	litText[n] = s
	return t
}

func litOf(t *T) (string, bool) {
	if t.op == "var" {
		s, ok := litText[t.name]
		return s, ok
	}
	return "", false
}
