package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Axiom: asserted in a session as soon as one of its trigger symbols occurs.
type Axiom struct {
	lemma bool
	name  string
	on    []string // asserted if any of these symbols occurs ("" = always)
	f     *T
}

// unfolder gives the ground definition instance of an application.
type unfolder func(app *T) *T

var (
	axioms    []*Axiom
	unfolders = map[string]unfolder{} // recursive definitions, unfolded on ground terms
	groundHks = map[string][]unfolder{}
)

// Session is one incremental solver process.
type Session struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	asserted map[*Axiom]bool
	prelude  strings.Builder // everything at base level, for fresh processes
	nq       int
	dead     bool
}

type Stats struct {
	queries, cached        int
	solverTime             time.Duration
	byBackend              map[string]int
	candTried, candDropped int
}

var stats Stats

func newSession() *Session {
	s := &Session{declared: map[string]bool{}, asserted: map[*Axiom]bool{}}
	s.start()
	return s
}

var z3opts = []string{"smt.auto_config=false", "smt.mbqi=false", "smt.relevancy=2"}

func (s *Session) start() {
	args := append([]string{"-in", "-smt2"}, z3opts...)
	s.cmd = exec.Command(z3bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	hdr := "(set-option :print-success false)\n(declare-sort S 0)\n(declare-sort I 0)\n(declare-sort Fn 0)\n"
	s.base(hdr)
}

func (s *Session) base(txt string) {
	s.prelude.WriteString(txt)
	s.send(txt)
}

func (s *Session) send(txt string) {
	if smtLog != nil {
		io.WriteString(smtLog, txt)
	}
	io.WriteString(s.in, txt)
}

func (s *Session) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// restart after a solver crash or hang
func (s *Session) restart() {
	s.close()
	old := s.prelude.String()
	s.prelude.Reset()
	args := append([]string{"-in", "-smt2"}, z3opts...)
	s.cmd = exec.Command(z3bin, args...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.base(old)
}

func (s *Session) readAnswer(limit time.Duration) string {
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		for {
			l, err := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l == "" && err == nil {
				continue
			}
			ch <- res{l, err}
			return
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			return "dead"
		}
		return r.l
	case <-time.After(limit):
		return "dead"
	}
}

func symbolsOf(ts []*T) map[string]*T {
	r := map[string]*T{}
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" || t.op == "var" {
			if _, ok := r[t.name]; !ok {
				r[t.name] = t
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, g := range t.trigs {
			for _, x := range g {
				walk(x)
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return r
}

// need declares all symbols of the terms and asserts the axioms they switch on.
func (s *Session) need(ts []*T) {
	work := ts
	for len(work) > 0 {
		syms := symbolsOf(work)
		work = nil
		var names []string
		for n := range syms {
			if !s.declared[n] {
				names = append(names, n)
			}
		}
		if len(names) == 0 {
			return
		}
		sort.Strings(names)
		var sb strings.Builder
		for _, n := range names {
			s.declared[n] = true
			t := syms[n]
			if t.op == "var" {
				fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", symName(n), t.sort)
			} else {
				d := t.fdecl
				fmt.Fprintf(&sb, "(declare-fun %s (", symName(n))
				for i, a := range d.args {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(string(a))
				}
				fmt.Fprintf(&sb, ") %s)\n", d.ret)
			}
		}
		s.base(sb.String())
		// literals are pairwise distinct; handled by their axioms
		for _, n := range names {
			for _, ax := range symAxioms(n) {
				if s.asserted[ax] {
					continue
				}
				s.asserted[ax] = true
				s.need([]*T{ax.f})
				s.base("(assert " + tb.Str(ax.f) + ")\n")
			}
		}
	}
}

func symAxioms(n string) []*Axiom {
	var r []*Axiom
	for _, ax := range axioms {
		for _, o := range ax.on {
			if o == n {
				r = append(r, ax)
			}
		}
	}
	r = append(r, litAxioms(n)...)
	return r
}

// expand adds ground instances of recursive definitions and data hooks.
func expand(ts []*T, depth int) []*T { return expandD(ts, depth, map[*T]bool{}) }

func expandD(ts []*T, depth int, done map[*T]bool) []*T {
	var out []*T
	cur := ts
	for d := 0; d <= depth; d++ {
		var next []*T
		seen := map[*T]bool{}
		var walk func(t *T)
		walk = func(t *T) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "app" && !t.hasBV && !done[t] {
				if u, ok := unfolders[t.name]; ok {
					done[t] = true
					if f := u(t); f != nil {
						next = append(next, f)
					}
				}
				for _, h := range groundHks[t.name] {
					done[t] = true
					if f := h(t); f != nil {
						next = append(next, f)
					}
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, t := range cur {
			walk(t)
		}
		if len(next) == 0 {
			break
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

type answer struct {
	res     string // "unsat", "sat", "unknown"
	backend string
	model   map[string]string
	reason  string
	slow    bool // ran into the time limit
}

var qcache = map[[32]byte]answer{}

const unfoldDepth = 1

func queryText(hyps []*T, goal *T) string {
	all := append(append([]*T{}, hyps...), tb.Not(goal))
	inst := expand(all, unfoldDepth)
	var sb strings.Builder
	writeAsserts(&sb, append(append([]*T{}, all...), inst...))
	return sb.String()
}

// writeAsserts prints assertions with shared closed subterms named.
func writeAsserts(sb *strings.Builder, ts []*T) { writeAssertsN(sb, ts, map[*T]string{}) }

func writeAssertsN(sb *strings.Builder, ts []*T, named map[*T]string) {
	cnt := map[*T]int{}
	var order []*T
	var walk func(t *T)
	walk = func(t *T) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	for _, t := range order {
		if _, have := named[t]; have {
			continue
		}
		if cnt[t] > 1 && t.size > 6 && !t.hasBV && len(t.bvs) == 0 && t.op != "var" {
			fmt.Fprintf(sb, "(define-fun n!%d () %s ", t.id, t.sort)
			tb.write(sb, t, named)
			sb.WriteString(")\n")
			named[t] = fmt.Sprintf("n!%d", t.id)
		}
	}
	for _, t := range ts {
		if t.isTrue() {
			continue
		}
		sb.WriteString("(assert ")
		tb.write(sb, t, named)
		sb.WriteString(")\n")
	}
}

// prove checks hyps |= goal within ms milliseconds in the incremental session.
func (s *Session) prove(hyps []*T, goal *T, ms int, wantModel []*T) answer {
	return s.proveD(hyps, goal, ms, wantModel, unfoldDepth)
}

func (s *Session) proveD(hyps []*T, goal *T, ms int, wantModel []*T, depth int) answer {
	if goal.isTrue() {
		return answer{res: "unsat", backend: "simplifier"}
	}
	all := append(append([]*T{}, hyps...), tb.Not(goal))
	for _, h := range all {
		if h.isFalse() {
			return answer{res: "unsat", backend: "simplifier"}
		}
	}
	inst := expand(all, depth)
	all = append(all, inst...)
	var sb strings.Builder
	writeAsserts(&sb, all)
	key := sha256.Sum256([]byte(sb.String()))
	if a, ok := qcache[key]; ok && len(wantModel) == 0 {
		if a.res == "unsat" || a.reason == fmt.Sprint(ms) {
			stats.cached++
			return a
		}
	}
	s.need(append(all, wantModel...))
	t0 := time.Now()
	s.send(fmt.Sprintf("(push)\n(set-option :timeout %d)\n", ms))
	s.send(sb.String())
	s.send("(check-sat)\n")
	r := s.readAnswer(time.Duration(ms)*time.Millisecond*3 + 10*time.Second)
	stats.queries++
	stats.solverTime += time.Since(t0)
	if slowLog && time.Since(t0) > 200*time.Millisecond {
		fmt.Printf("SLOW %v %s hyps=%d insts=%d goal=%s\n", time.Since(t0), r, len(hyps), len(inst), clip(tb.Str(goal), 250))
	}
	a := answer{res: r, backend: "z3-new", reason: fmt.Sprint(ms)}
	a.slow = time.Since(t0) > time.Duration(ms)*time.Millisecond*7/10
	if r == "dead" {
		a.res = "unknown"
		s.restart()
		qcache[key] = a
		return a
	}
	if strings.HasPrefix(r, "(error") {
		panic("solver: " + r + "\n" + sb.String())
	}
	if r != "unsat" && len(wantModel) > 0 {
		a.model = map[string]string{}
		for _, t := range wantModel {
			s.send("(get-value (" + tb.Str(t) + "))\n")
			v := s.readAnswer(5 * time.Second)
			if v == "dead" {
				s.restart()
				return a
			}
			if strings.HasPrefix(v, "(error") {
				break
			}
			a.model[tb.Str(t)] = v
		}
	}
	s.send("(pop)\n")
	qcache[key] = a
	return a
}

// proveHard tries fresh processes of all back ends.
func (s *Session) proveHard(hyps []*T, goal *T, ms int) answer {
	all := append(append([]*T{}, hyps...), tb.Not(goal))
	inst := expand(all, unfoldDepth+1)
	all = append(all, inst...)
	s.need(all)
	var sb strings.Builder
	sb.WriteString(s.prelude.String())
	writeAsserts(&sb, all)
	sb.WriteString("(check-sat)\n")
	type be struct {
		name string
		args []string
	}
	backs := []be{
		{"z3-new", append([]string{z3new, "-smt2", "-in", fmt.Sprintf("-T:%d", ms/1000+1)}, z3opts...)},
		{"z3", append([]string{z3old, "-smt2", "-in", fmt.Sprintf("-T:%d", ms/1000+1)}, z3opts...)},
		{"cvc5", []string{"cvc5", "--lang=smt2", "-", fmt.Sprintf("--tlimit=%d", ms)}},
	}
	type r struct {
		n, out string
	}
	ch := make(chan r, len(backs))
	var cmds []*exec.Cmd
	t0 := time.Now()
	txt := sb.String()
	for _, b := range backs {
		t := txt
		if b.name == "cvc5" {
			t = "(set-logic ALL)\n" + t
		}
		c := exec.Command(b.args[0], b.args[1:]...)
		c.Stdin = strings.NewReader(t)
		cmds = append(cmds, c)
		go func(n string) {
			o, _ := c.Output()
			f := strings.Fields(string(o))
			res := "unknown"
			for _, w := range f {
				if w == "unsat" || w == "sat" {
					res = w
					break
				}
				if strings.HasPrefix(w, "(error") {
					res = "error"
					break
				}
			}
			ch <- r{n, res}
		}(b.name)
	}
	ans := answer{res: "unknown", backend: "all"}
	for range backs {
		x := <-ch
		if x.out == "unsat" {
			ans = answer{res: "unsat", backend: x.n}
			break
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	stats.queries++
	stats.solverTime += time.Since(t0)
	return ans
}

var (
	z3bin   = "z3-new"
	z3new   = "z3-new"
	z3old   = "z3"
	smtLog  io.Writer
	slowLog = os.Getenv("VC_SLOW") != ""
)

func init() {
	if p := os.Getenv("VC_SMTLOG"); p != "" {
		f, err := os.Create(filepath.Clean(p))
		if err == nil {
			smtLog = f
		}
	}
	if p := os.Getenv("VC_Z3"); p != "" {
		z3bin = p
	}
	stats.byBackend = map[string]int{}
}
