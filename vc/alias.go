package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Loop invariants are written with the names of local variables. Where a
// function's variables have other names than on the tree the invariants were
// written for, the variable declared at the same place among those of its type
// is tried first. This only orders the candidates: each is proved or dropped.

type local struct{ name, typ string }

// localsOf lists the variables of a function in the order of declaration.
func localsOf(key string) []local {
	fn := world.funcs[key]
	if fn == nil {
		return nil
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	pk := fnPkg(fn)
	syn := fn.Syntax()
	if syn == nil || pk == nil {
		return nil
	}
	var info *types.Info
	for _, p := range world.pkgs {
		if p.Types == pk.Pkg {
			info = p.TypesInfo
		}
	}
	var out []local
	ast.Inspect(syn, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name != "_" {
			if v, ok := info.Defs[id].(*types.Var); ok {
				out = append(out, local{id.Name, types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })})
			}
		}
		return true
	})
	return out
}

// cmdLocals writes spec/locals.txt from the current tree.
func cmdLocals() {
	var ks []string
	for k := range spec.contracts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, l := range localsOf(k) {
			fmt.Printf("%s\t%s\t%s\n", k, l.name, l.typ)
		}
	}
}

var pinned map[string][]local
var aliases = map[string]map[string]string{}

func aliasOf(fn, name string) string {
	if pinned == nil {
		pinned = map[string][]local{}
		b, _ := os.ReadFile(filepath.Join(env("VC_SPEC", "/verif/spec"), "locals.txt"))
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Split(l, "\t"); len(f) == 3 {
				pinned[f[0]] = append(pinned[f[0]], local{f[1], f[2]})
			}
		}
	}
	m, ok := aliases[fn]
	if !ok {
		m = align(pinned[fn], localsOf(fn))
		aliases[fn] = m
	}
	return m[name]
}

// align matches the variables that only one side has: by type and order, with
// variables of the same name as fixed points.
func align(a, b []local) map[string]string {
	// longest common subsequence, same name counting more than same type
	n, k := len(a), len(b)
	w := func(x, y local) int {
		switch {
		case x == y:
			return 5
		case x.name == y.name:
			return 3
		case x.typ == y.typ:
			return 2
		}
		return 0
	}
	d := make([][]int, n+1)
	for i := range d {
		d[i] = make([]int, k+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := k - 1; j >= 0; j-- {
			m := d[i+1][j]
			if d[i][j+1] > m {
				m = d[i][j+1]
			}
			if x := w(a[i], b[j]); x > 0 && x+d[i+1][j+1] > m {
				m = x + d[i+1][j+1]
			}
			d[i][j] = m
		}
	}
	have := map[string]bool{}
	for _, x := range b {
		have[x.name] = true
	}
	out := map[string]string{}
	for i, j := 0, 0; i < n && j < k; {
		x := w(a[i], b[j])
		switch {
		case x > 0 && d[i][j] == x+d[i+1][j+1]:
			if a[i].name != b[j].name && !have[a[i].name] {
				if _, dup := out[a[i].name]; !dup {
					out[a[i].name] = b[j].name
				}
			}
			i++
			j++
		case d[i][j] == d[i+1][j]:
			i++
		default:
			j++
		}
	}
	return out
}
