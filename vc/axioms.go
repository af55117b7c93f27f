package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
	"unicode/utf8"
)

// The axioms of strings, UTF-8, products and quotients (vc/strs.go) are not
// taken on trust: `vc axioms` proves each one with an SMT solver in a model in
// which strings are sequences of bytes, products and quotients are those of
// the integers, and dr and dl decode UTF-8 byte by byte. Recursive functions
// are proved by induction, with the step given below.

const axPrelude = `(set-logic ALL)
(define-sort S () (Seq (_ BitVec 8)))
(define-fun slen ((s S)) Int (seq.len s))
(define-fun scat ((a S) (b S)) S (seq.++ a b))
(define-fun ssub ((s S) (i Int) (j Int)) S (seq.extract s i (- j i)))
(define-fun sat ((s S) (i Int)) Int (ite (and (<= 0 i) (< i (seq.len s))) (bv2nat (seq.nth s i)) 0))
(define-fun mul ((a Int) (b Int)) Int (* a b))
(define-fun quo ((a Int) (b Int)) Int (ite (< b 0) (ite (>= a 0) (- (div a (- b))) (div (- a) (- b))) (ite (>= a 0) (div a b) (- (div (- a) b)))))
(define-fun cont ((s S) (i Int)) Bool (and (<= 128 (sat s i)) (<= (sat s i) 191)))
(define-fun in ((x Int) (l Int) (h Int)) Bool (and (<= l x) (<= x h)))
(define-fun two ((s S)) Bool (and (in (sat s 0) 194 223) (cont s 1)))
(define-fun three ((s S)) Bool (and (cont s 1) (cont s 2)
  (or (and (= (sat s 0) 224) (<= 160 (sat s 1))) (in (sat s 0) 225 236) (and (= (sat s 0) 237) (<= (sat s 1) 159)) (in (sat s 0) 238 239))))
(define-fun four ((s S)) Bool (and (cont s 1) (cont s 2) (cont s 3)
  (or (and (= (sat s 0) 240) (<= 144 (sat s 1))) (in (sat s 0) 241 243) (and (= (sat s 0) 244) (<= (sat s 1) 143)))))
(define-fun dl ((s S)) Int (ite (= (seq.len s) 0) 0 (ite (< (sat s 0) 128) 1 (ite (two s) 2 (ite (three s) 3 (ite (four s) 4 1))))))
(define-fun dr ((s S)) Int (ite (= (seq.len s) 0) 65533 (ite (< (sat s 0) 128) (sat s 0)
  (ite (two s) (+ (* 64 (- (sat s 0) 192)) (- (sat s 1) 128))
  (ite (three s) (+ (* 4096 (- (sat s 0) 224)) (* 64 (- (sat s 1) 128)) (- (sat s 2) 128))
  (ite (four s) (+ (* 262144 (- (sat s 0) 240)) (* 4096 (- (sat s 1) 128)) (* 64 (- (sat s 2) 128)) (- (sat s 3) 128)) 65533))))))
`

type axGoal struct{ name, extra, goal string }

func litDefs(ts ...*T) string {
	var ns []string
	for n := range symbolsOf(ts) {
		if _, ok := litText[n]; ok {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	var sb strings.Builder
	for _, n := range ns {
		fmt.Fprintf(&sb, "(define-fun %s () S %s)\n", symName(n), seqLit(litText[n]))
	}
	return sb.String()
}

func seqLit(s string) string {
	if s == "" {
		return "(as seq.empty S)"
	}
	var p []string
	for i := 0; i < len(s); i++ {
		p = append(p, fmt.Sprintf("(seq.unit #x%02x)", s[i]))
	}
	if len(p) == 1 {
		return p[0]
	}
	return "(seq.++ " + strings.Join(p, " ") + ")"
}

// noPat removes patterns, which need not make sense for defined functions.
func noPat(t *T) *T {
	if t.op == "forall" {
		return tb.Forall(t.bvs, nil, noPat(t.args[0]))
	}
	return t
}

func axiomGoals() (gs []axGoal) {
	for _, ax := range axioms {
		if ax.lemma || strings.HasPrefix(ax.name, "type:") || strings.HasPrefix(ax.name, "pattern") {
			continue
		}
		extra := ""
		switch ax.name {
		case "rc":
			// by induction on the length: the definition, and the claim for the rest
			extra = `(declare-fun rc (S) Int)
(assert (forall ((s S)) (=> (= (seq.len s) 0) (= (rc s) 0))))
(declare-fun x0 () S)
(assert (=> (> (seq.len x0) 0) (= (rc x0) (+ 1 (rc (ssub x0 (dl x0) (slen x0)))))))
(define-fun claim ((s S)) Bool (and (<= 0 (rc s)) (<= (rc s) (slen s)) (=> (< 0 (slen s)) (<= 1 (rc s)))))
(assert (claim (ssub x0 (dl x0) (slen x0))))
`
			gs = append(gs, axGoal{ax.name, extra, "(claim x0)"})
			continue
		case "ra-step0":
			continue // the definition
		case "ra-step":
			// with the definition at s[i:], ra(s, k+1) == ra(s[dl(s):], k), this is left
			extra = `(declare-fun x0 () S)
(declare-fun i0 () Int)
(define-fun y0 () S (ssub x0 i0 (slen x0)))
(assert (and (<= 0 i0) (< i0 (slen x0))))
`
			gs = append(gs, axGoal{ax.name, extra, "(= (ssub y0 (dl y0) (slen y0)) (ssub x0 (+ i0 (dl y0)) (slen x0)))"})
			continue
		case "ra":
			extra = `(declare-fun ra (S Int) Int)
(declare-fun x0 () S)
(declare-fun i0 () Int)
(assert (= (ra x0 i0) (ite (<= i0 0) (dr x0) (ra (ssub x0 (dl x0) (slen x0)) (- i0 1)))))
(assert (= (ra x0 0) (dr x0)))
(define-fun claim ((s S) (i Int)) Bool (and (=> (< 0 (slen s)) (= (ra s 0) (dr s))) (<= 0 (ra s i)) (<= (ra s i) 1114111)))
(assert (claim (ssub x0 (dl x0) (slen x0)) (- i0 1)))
`
			gs = append(gs, axGoal{ax.name, extra, "(claim x0 i0)"})
			continue
		}
		fs := []*T{ax.f}
		if ax.f.op == "and" {
			fs = ax.f.args
		}
		for i, f := range fs {
			n := ax.name
			if len(fs) > 1 {
				n = fmt.Sprintf("%s#%d", n, i+1)
			}
			bs := []*T{f}
			if f.op == "forall" {
				var vs []*T
				m := map[*T]*T{}
				for k, v := range f.bvs {
					c := tb.Var(fmt.Sprintf("c%d", k), v.sort)
					m[v] = c
					vs = append(vs, c)
				}
				b := substRaw(f.args[0], m)
				bs = []*T{b}
				if b.op == "and" {
					bs = b.args
				}
				for _, v := range vs {
					extra += fmt.Sprintf("(declare-fun %s () %s)\n", v.name, v.sort)
				}
			}
			for j, b := range bs {
				nn := n
				if len(bs) > 1 {
					nn = fmt.Sprintf("%s.%d", n, j+1)
				}
				gs = append(gs, axGoal{nn, litDefs(b) + extra, tb.Str(b)})
			}
			extra = ""
		}
	}
	// ground facts
	rep := `(declare-fun x () S)
(declare-fun n () Int)
(declare-fun rep (S Int) S)
(assert (forall ((k Int)) (=> (<= k 0) (= (rep x k) (as seq.empty S)))))
(assert (=> (> n 0) (= (rep x n) (scat (rep x (- n 1)) x))))
`
	gs = append(gs,
		// A is rep(x, n-1), B is rep(x, n-2)
		axGoal{"rep: from the left, step", "(declare-fun x () S)\n(declare-fun A () S)\n(declare-fun B () S)\n(declare-fun cat (S S) S)\n(assert (= (cat (cat x B) x) (cat x (cat B x))))\n(assert (= A (cat x B)))\n(assert (= A (cat B x)))\n", "(= (cat A x) (cat x A))"},
		axGoal{"rep: from the left, start", rep + "(assert (= n 1))\n", "(= (rep x n) (scat x (rep x (- n 1))))"},
		axGoal{"rep: length, step", rep + "(declare-fun l () Int)\n(assert (= l (slen x)))\n(assert (> n 0))\n(assert (= (slen (rep x (- n 1))) (* l (- n 1))))\n", "(= (slen (rep x n)) (* l n))"},
		axGoal{"ssub-scat", "(declare-fun a () S)\n(declare-fun b () S)\n", "(= (ssub (scat a b) 0 (slen a)) a)"},
		axGoal{"rep: length, start", rep + "(assert (= n 0))\n", "(= (slen (rep x n)) 0)"},
		axGoal{"mul: distributive", "(declare-fun a () Int)\n(declare-fun b () Int)\n(declare-fun c () Int)\n(declare-fun d () Int)\n(declare-fun k () Int)\n(declare-fun m () Int)\n",
			"(= (mul (+ a b k) (+ c d m)) (+ (mul a c) (mul a d) (mul m a) (mul b c) (mul b d) (mul m b) (mul k c) (mul k d) (* k m)))"},
		axGoal{"quo: of a multiple and a rest", "(declare-fun o () Int)\n(declare-fun y () Int)\n(declare-fun r () Int)\n",
			"(=> (and (<= 0 r) (< r y) (<= 0 o)) (= (quo (+ (mul o y) r) y) o))"},
	)
	for _, t := range []string{"", "a", " ", "\n", "ab", "@cjk_narrow", "0123456789abcdef", "\xff\x00"} {
		l := strLit(t)
		for _, ax := range litAxioms(l.name) {
			if strings.HasSuffix(ax.name, "-bytes") {
				m := map[*T]*T{}
				extra := ""
				for k, v := range ax.f.bvs {
					c := tb.Var(fmt.Sprintf("c%d", k), v.sort)
					m[v] = c
					extra += fmt.Sprintf("(declare-fun %s () %s)\n", c.name, c.sort)
				}
				gs = append(gs, axGoal{fmt.Sprintf("literal %q from its bytes", t), litDefs(l) + extra, tb.Str(substRaw(ax.f.args[0], m))})
			} else {
				// the identity of literals is given by the solver's equality
				var fs []*T
				for _, f := range append([]*T{ax.f}, ax.f.args...) {
					if f.op == "=" && !(f.args[0].op == "app" && f.args[0].name == "litid") {
						fs = append(fs, f)
					}
				}
				gs = append(gs, axGoal{fmt.Sprintf("literal %q", t), litDefs(l), tb.Str(tb.mk("and", SBool, append(fs, tb.Bool(true), tb.Bool(true))...))})
			}
		}
	}
	return
}

// substRaw substitutes without simplifying.
func substRaw(t *T, m map[*T]*T) *T {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	n := *t
	n.args = make([]*T, len(t.args))
	for i, a := range t.args {
		n.args[i] = substRaw(a, m)
	}
	n.bvs, n.trigs = t.bvs, nil
	return tb.intern(&n)
}

func runSMT(bin []string, txt string, limit time.Duration) string {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, bin[0], bin[1:]...)
	c.Stdin = strings.NewReader(txt)
	out, _ := c.Output()
	return strings.TrimSpace(string(out))
}

// axioms: prove the axioms; exit 1 if one is not proved.
func cmdAxioms(args []string) {
	setup()
	bad := 0
	n := 0
	t0 := time.Now()
	for _, g := range axiomGoals() {
		if len(args) > 0 && !strings.Contains(g.name, args[0]) {
			continue
		}
		n++
		txt := axPrelude + g.extra + "(assert (not " + g.goal + "))\n(check-sat)\n"
		res, by := "", ""
		for _, b := range [][]string{{z3new, "-in", "-T:4"}, {z3old, "-in", "-T:20"}, {"cvc5", "--lang=smt2", "--strings-exp", "--tlimit=20000"}} {
			t1 := time.Now()
			res = runSMT(b, txt, 30*time.Second)
			if d := time.Since(t1); d > 2*time.Second {
				fmt.Fprintf(os.Stderr, "%s %s %s %.1fs\n", g.name, b[0], res, d.Seconds())
			}
			by = b[0]
			if res == "unsat" || res == "sat" {
				break
			}
		}
		if res != "unsat" {
			bad++
			fmt.Printf("NOT PROVED axiom %s: %s\n", g.name, clip(res, 200))
			if len(args) > 0 {
				fmt.Println(txt)
			}
		} else if len(args) > 0 {
			fmt.Printf("proved %s (%s)\n", g.name, by)
		}
	}
	fmt.Printf("axioms: %d of %d proved in %.1fs\n", n-bad, n, time.Since(t0).Seconds())
	bad += libProofs()
	bad += libTests()
	if bad > 0 {
		os.Exit(1)
	}
}

// libProved: library functions whose assumed contracts are proved of the
// library's own source.
var libProved = []string{"strings.HasPrefix", "strings.HasSuffix", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Join", "utf8.RuneCountInString", "utf8.DecodeRuneInString",
	"lru.New[string, uint16]", "lru.(*Cache).Get", "lru.(*Cache).Set"}

func libProofs() (bad int) {
	self, err := os.Executable()
	if err != nil {
		return 1
	}
	cmd := exec.Command(self, append([]string{"verify"}, libProved...)...)
	cmd.Env = append(os.Environ(), "VC_LIBS=1")
	out, err := cmd.CombinedOutput()
	fmt.Print(string(out))
	if err != nil {
		return 1
	}
	return 0
}

// libTests: library contracts that are not proved of the library's source
// (bounded): Repeat and IndexByte against what their contracts say; decoding
// against the definitions of dr and dl above, on every combination of the bytes
// at the borders of their ranges (also proved, see spec/lib/strings.spec).
func libTests() (bad int) {
	var ss []string
	next := [][]byte{{0, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0}, {0x7f, 0x80, 0xbf, 0xc0}, {0x7f, 0x80, 0xbf, 0xc0}}
	var grow func(p string, d int)
	grow = func(p string, d int) {
		ss = append(ss, p)
		if d < len(next) {
			for _, b := range next[d] {
				grow(p+string([]byte{b}), d+1)
			}
		}
	}
	for _, b := range []byte{0, 'a', 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff} {
		grow(string([]byte{b}), 0)
	}
	ss = append(ss, "")
	var sb strings.Builder
	sb.WriteString(axPrelude + "(assert (not (and\n")
	for _, s := range ss {
		r, n := utf8.DecodeRuneInString(s)
		fmt.Fprintf(&sb, "(= (dr %s) %d) (= (dl %s) %d)\n", seqLit(s), r, seqLit(s), n)
	}
	sb.WriteString(")))\n(check-sat)\n")
	if r := runSMT([]string{z3new, "-in", "-T:60"}, sb.String(), 70*time.Second); r != "unsat" {
		bad++
		fmt.Printf("library: utf8.DecodeRuneInString differs from dr, dl: %s\n", clip(r, 200))
	}
	for _, s := range ss {
		rep := ""
		for n := 0; n < 9; n++ {
			if strings.Repeat(s, n) != rep {
				bad++
				fmt.Printf("library: strings.Repeat(%q, %d)\n", s, n)
			}
			rep += s
		}
		for _, b := range []byte{0, 'a', 0x80, 0xbf, 0xc3} {
			i := 0
			for i < len(s) && s[i] != b {
				i++
			}
			if i == len(s) {
				i = -1
			}
			if strings.IndexByte(s, b) != i {
				bad++
				fmt.Printf("library: strings.IndexByte(%q, %d)\n", s, b)
			}
		}
	}
	fmt.Printf("library: DecodeRuneInString, Repeat, IndexByte tested on %d strings (bounded)\n", len(ss))
	return
}

// libContracts: the assumed contracts of library functions, to be proved of
// their source; a contract in spec/lib adds loop invariants.
func libContracts() {
	for _, k := range append([]string(nil), spec.order...) {
		n, ok := strings.CutPrefix(k, "ext.")
		if !ok || world.funcs[n] == nil || strings.HasPrefix(n, "lru.") {
			continue
		}
		c := *spec.contracts[k]
		c.fn, c.trusted = n, false
		c.pkg, _, _ = strings.Cut(n, ".")
		if x := spec.contracts[n]; x != nil {
			if len(x.ensures) > 0 {
				continue
			}
			c.invs = append(c.invs, x.invs...)
			c.panics = x.panics
			if len(x.params) != len(spec.contracts[k].params) {
				panic("spec/lib: " + n)
			}
		}
		spec.contracts[n] = &c
	}
}
