package main

import (
	"crypto/sha256"
	"fmt"
	"strings"
	"time"
)

// proveMany decides several goals from the same hypotheses, on several solver
// processes. The answers are in the order of the goals.
func (v *Verifier) proveMany(st *State, goals []*T, ms int) []answer {
	res := make([]answer, len(goals))
	if len(goals) == 0 {
		return res
	}
	save := freshN
	defer func() { freshN = save }()
	for _, h := range st.pc {
		if h.isFalse() {
			for i := range res {
				res[i] = answer{res: "unsat", backend: "simplifier"}
			}
			return res
		}
	}
	type sub struct {
		goal int
		all  []*T // extra hypotheses and the negated goal
	}
	var subs []sub
	for i, g := range goals {
		res[i] = answer{res: "unsat", backend: "simplifier"}
		if g.isTrue() {
			continue
		}
		for _, p := range flattenGoal(st.pc, g) {
			hy, x := p[0].([]*T), p[1].(*T)
			if x.isTrue() {
				continue
			}
			all := append(append([]*T{}, hy[len(st.pc):]...), tb.Not(x))
			f := false
			for _, a := range all {
				f = f || a.isFalse()
			}
			if !f {
				subs = append(subs, sub{i, all})
			}
		}
	}
	if len(subs) == 0 {
		return res
	}
	for len(v.poolS) < v.poolN {
		v.poolS = append(v.poolS, newSession())
	}
	// common part
	done := map[*T]bool{}
	cinst := expandD(st.pc, unfoldDepth, done)
	common := append(append([]*T{}, st.pc...), cinst...)
	named := map[*T]string{}
	var cb strings.Builder
	writeAssertsN(&cb, common, named)
	ctext := cb.String()
	type job struct {
		text string
		subs []int
	}
	np := len(v.poolS)
	if np > len(subs) {
		np = len(subs)
	}
	// consecutive chunks: a goal's parts stay together where possible
	texts := make([]string, len(subs))
	keys := make([][32]byte, len(subs))
	todo := []int{}
	ends := map[int][]*T{}
	for i, s := range subs {
		dn := map[*T]bool{}
		for k := range done {
			dn[k] = true
		}
		inst := expandD(s.all, unfoldDepth, dn)
		all := append(append([]*T{}, s.all...), inst...)
		nm := make(map[*T]string, len(named))
		for k, x := range named {
			nm[k] = x
		}
		var sb strings.Builder
		writeAssertsN(&sb, all, nm)
		texts[i] = sb.String()
		keys[i] = sha256.Sum256([]byte(ctext + texts[i]))
		if a, ok := qcache[keys[i]]; ok && (a.res == "unsat" || a.reason == fmt.Sprint(ms)) {
			stats.cached++
			if a.res != "unsat" && res[s.goal].res == "unsat" {
				res[s.goal] = a
			}
			continue
		}
		ends[i] = all
		todo = append(todo, i)
	}
	if len(todo) == 0 {
		return res
	}
	if np > len(todo) {
		np = len(todo)
	}
	t0 := time.Now()
	type out struct {
		i int
		a answer
	}
	ch := make(chan out, len(todo))
	for p := 0; p < np; p++ {
		var mine []int
		for k := p; k < len(todo); k += np {
			mine = append(mine, todo[k])
		}
		s := v.poolS[p]
		terms := append([]*T{}, common...)
		for _, i := range mine {
			terms = append(terms, ends[i]...)
		}
		s.need(terms)
		go func() {
			dead := false
			s.send(fmt.Sprintf("(push)\n(set-option :timeout %d)\n", ms))
			s.send(ctext)
			for _, i := range mine {
				if dead {
					ch <- out{i, answer{res: "unknown", reason: fmt.Sprint(ms)}}
					continue
				}
				s.send("(push)\n")
				s.send(texts[i])
				s.send("(check-sat)\n(pop)\n")
				t1 := time.Now()
				r := s.readAnswer(time.Duration(ms)*time.Millisecond*3 + 10*time.Second)
				a := answer{res: r, backend: "z3-new", reason: fmt.Sprint(ms)}
				a.slow = time.Since(t1) > time.Duration(ms)*time.Millisecond*7/10
				if r == "dead" {
					a.res = "unknown"
					dead = true
				}
				ch <- out{i, a}
			}
			if dead {
				s.restart()
			} else {
				s.send("(pop)\n")
			}
			ch <- out{-1, answer{}}
		}()
	}
	for n := 0; n < np; {
		o := <-ch
		if o.i < 0 {
			n++
			continue
		}
		if strings.HasPrefix(o.a.res, "(error") {
			panic("solver: " + o.a.res + "\n" + texts[o.i])
		}
		stats.queries++
		qcache[keys[o.i]] = o.a
		g := subs[o.i].goal
		if o.a.res != "unsat" && res[g].res == "unsat" {
			res[g] = o.a
		} else if res[g].res == "unsat" {
			res[g].backend = "z3-new"
		}
	}
	stats.solverTime += time.Since(t0)
	prof("batch", t0)
	return res
}
