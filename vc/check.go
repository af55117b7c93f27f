package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// check: decides one property.

type checker struct {
	p       *propDef
	tier    string
	cross   []string // thorough: what `vc axioms` says
	seed    int64
	t0      time.Time
	repo    string
	verif   string
	total   time.Duration
	reps    map[string]*Report // latest report by key
	mu      sync.Mutex
	sem     chan struct{}
	falsify []string // what the search for failing inputs did
	tries   int
}

func (c *checker) left() time.Duration { return c.total - time.Since(c.t0) }

// verifyLemmas proves all lemmas, in one process.
func (c *checker) verifyLemmas(limit time.Duration) {
	keys := lemmaKeys()
	rs := c.verifyAll(keys, nil, false, limit)
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, k := range keys {
		if rs[i].Skipped == "" {
			c.reps[k] = rs[i]
		}
	}
}

func (c *checker) verify(key string, inline []string, narrow bool, limit time.Duration) *Report {
	return c.verifyAll([]string{key}, inline, narrow, limit)[0]
}

// verifyAll runs functions or lemmas in a process of their own.
func (c *checker) verifyAll(keys []string, inline []string, narrow bool, limit time.Duration) []*Report {
	key := keys[0]
	fail := func(name, m string) []*Report {
		var rs []*Report
		for _, k := range keys {
			rs = append(rs, &Report{Fn: k, Err: m, Obls: []*Obl{{Fn: k, Kind: "reach", Name: name, Text: m, Reason: m}}})
		}
		return rs
	}
	c.sem <- struct{}{}
	defer func() { <-c.sem }()
	if l := c.left() - 10*time.Second; l < limit {
		limit = l
	}
	if limit < 3*time.Second {
		return fail("in-time", "no time left")
	}
	args := []string{"verify", "-json", "-limit", limit.String()}
	if narrow {
		args = append(args, "-narrow")
	}
	if len(inline) > 0 {
		args = append(args, "-inline", strings.Join(inline, ","))
	}
	args = append(args, keys...)
	ctx, cancel := context.WithTimeout(context.Background(), limit+30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	var rs []*Report
	if json.Unmarshal(out.Bytes(), &rs) != nil || len(rs) != len(keys) {
		return fail("verifier-answers", fmt.Sprintf("no report on %s: %v %s", key, err, clip(errb.String(), 400)))
	}
	return rs
}

func failedOf(r *Report, f func(*Obl) bool) []*Obl {
	var out []*Obl
	if r.Missing {
		return []*Obl{{Fn: r.Fn, Kind: "reach", Name: "exists", Text: "function under contract not found in the source"}}
	}
	for _, o := range r.Obls {
		if !o.OK && (f == nil || f(o)) {
			out = append(out, o)
		}
	}
	if len(out) == 0 && !r.OK && len(r.Obls) == 0 {
		out = []*Obl{{Fn: r.Fn, Kind: "reach", Name: "some-obligations", Text: r.Err}}
	}
	return out
}

// missingHelpers: contracts on unexported functions that are no longer there or
// have another signature. They are executed in place where they are called.
func missingHelpers() []string {
	var r []string
	for k, con := range spec.contracts {
		if con.trusted || isRoot(k) {
			continue
		}
		fn := world.funcs[k]
		if fn == nil || fn.Blocks == nil || contractMisfit(fn, con) != "" {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// lemmasFor: all lemmas; each is proved on its own.
func lemmaKeys() []string {
	var r []string
	for _, l := range spec.lemmas {
		if !l.trusted {
			r = append(r, "lemma."+l.name)
		}
	}
	return r
}

type result struct {
	fails []*Obl
	input string
}

func (c *checker) run() int {
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	gone := missingHelpers()
	isGone := map[string]bool{}
	for _, k := range gone {
		isGone[k] = true
	}
	// stage 1: everything the property rests on
	owns := map[string]bool{}
	var keys []string
	for _, k := range c.p.own {
		if strings.HasPrefix(k, "lemma.") {
			continue
		}
		owns[k] = true
		if !isGone[k] {
			keys = append(keys, k)
		}
	}
	if len(gone) > 0 {
		for _, k := range c.p.fall {
			keys = append(keys, k)
			owns[k] = true
		}
	}
	lim := 240 * time.Second
	if c.tier == "thorough" {
		lim = 600 * time.Second
	}
	c.stage(keys, gone, true, lim)
	own, up := c.failures(owns)
	helperFail := gone
	if len(own)+len(up) > 0 {
		// a failing input settles it
		if in := c.search(25); in != "" {
			return c.violation(append(own, up...), in)
		}
		if len(own) > 0 {
			own = c.insist(owns, gone)
		}
	}
	_ = helperFail
	if len(own) > 0 {
		in := c.search(90)
		return c.violation(own, in)
	}
	if c.tier == "thorough" {
		// cross-checks of what the proof rests on: the search for failing
		// inputs must find nothing, and the axioms must be provable
		secs, _ := strconv.Atoi(env("VERIF_SEARCH", "600"))
		if in := c.search(secs); in != "" {
			return c.violation(append(own, up...), in)
		}
		if self, err := os.Executable(); err == nil {
			out, err := exec.Command(self, "axioms").Output()
			for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
				c.cross = append(c.cross, l)
			}
			if err != nil {
				c.cross = append(c.cross, "axioms: "+err.Error())
				fmt.Printf("%s: note: the cross-check of the axioms failed: %v\n", c.p.id, err)
			}
		}
	}
	c.evidence(0, up)
	if len(up) > 0 {
		fmt.Printf("%s: holds relative to contracts of other properties that do not verify at the moment:\n", c.p.id)
		for _, o := range up {
			fmt.Printf("   %s %s %s\n", o.Fn, o.Kind, o.Name)
		}
	}
	n := 0
	for _, r := range c.reps {
		n += len(r.Obls)
	}
	fmt.Printf("OK property=%s: %d obligations of %d functions and lemmas discharged in %.1fs\n", c.p.id, n, len(c.reps), time.Since(c.t0).Seconds())
	return 0
}

// stage verifies keys and the contracts they use.
func (c *checker) stage(keys, inline []string, narrow bool, lim time.Duration) {
	var wg sync.WaitGroup
	seen := map[string]bool{}
	var add func(k string)
	add = func(k string) {
		c.mu.Lock()
		if seen[k] {
			c.mu.Unlock()
			return
		}
		seen[k] = true
		c.mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := c.verify(k, inline, narrow, lim)
			c.mu.Lock()
			c.reps[k] = r
			c.mu.Unlock()
			for _, u := range r.Used {
				if con := spec.contracts[u]; con != nil && !con.trusted {
					add(u)
				}
			}
		}()
	}
	for _, k := range keys {
		add(k)
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		c.verifyLemmas(lim)
	}()
	wg.Wait()
}

// failures of the property's own contracts, and of contracts it relies on.
func (c *checker) failures(owns map[string]bool) (own, up []*Obl) {
	var ks []string
	for k := range c.reps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if owns[k] || has(c.p.own, k) {
			own = append(own, failedOf(c.reps[k], func(o *Obl) bool { return c.p.concerns(k, o) })...)
		} else {
			up = append(up, failedOf(c.reps[k], nil)...)
		}
	}
	return
}

// insist tries the expensive strategies, with the helpers whose contracts fail
// executed in place.
func (c *checker) insist(owns map[string]bool, gone []string) []*Obl {
	inl := map[string]bool{}
	for _, k := range gone {
		inl[k] = true
	}
	for round := 0; round < 3; round++ {
		var redo []string
		for k := range owns {
			r := c.reps[k]
			if r == nil || inl[k] {
				continue
			}
			if len(failedOf(r, func(o *Obl) bool { return c.p.concerns(k, o) })) > 0 {
				redo = append(redo, k)
			}
		}
		if len(redo) == 0 {
			break
		}
		sort.Strings(redo)
		lim := 500 * time.Second
		if c.tier != "thorough" {
			// leave time for the last rounds and the search
			lim = c.total - 110*time.Second - time.Since(c.t0)
			if round < 2 {
				lim /= 2
			}
			lim = max(lim, 60*time.Second)
			if round == 0 {
				lim = min(lim, 150*time.Second)
			}
		}
		if round == 0 {
			// a function that relies on helpers in doubt: helpers first
			doubt := map[string]bool{}
			for _, k := range redo {
				doubt[k] = !isRoot(k)
			}
			var first []string
			for _, k := range redo {
				wait := false
				for _, u := range c.used(k) {
					wait = wait || u != k && doubt[u]
				}
				if !wait {
					first = append(first, k)
				}
			}
			if len(first) > 0 {
				redo = first
			}
		}
		// round 0: all strategies; later: with helpers in place
		var wg sync.WaitGroup
		for _, k := range redo {
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := keysOf(inl)
				if round == 2 { // also helpers whose contracts hold
					for _, u := range c.used(k) {
						if !isRoot(u) && !has(l, u) {
							l = append(l, u)
						}
					}
				}
				r := c.verify(k, l, false, lim)
				c.mu.Lock()
				if len(failedOf(r, nil)) <= len(failedOf(c.reps[k], nil)) {
					c.reps[k] = r
				}
				c.mu.Unlock()
			}()
		}
		wg.Wait()
		// helpers that still fail are executed in place from now on
		more := false
		for _, k := range redo {
			if isRoot(k) || strings.HasPrefix(k, "lemma.") || len(failedOf(c.reps[k], func(o *Obl) bool { return c.p.concerns(k, o) })) == 0 {
				continue
			}
			more = true
			inl[k] = true
			// its callers have to be looked at again
			for caller, r := range c.reps {
				if owns[caller] && has(r.Used, k) && !inl[caller] {
					r.OK = false
					r.Obls = append(r.Obls, &Obl{Fn: caller, Kind: "reach", Name: "relies-on:" + k, Text: "relies on a contract that does not hold"})
				}
			}
			for _, f := range c.p.fall {
				if !owns[f] {
					owns[f] = true
					c.reps[f] = &Report{Fn: f, Obls: []*Obl{{Fn: f, Kind: "reach", Name: "not-yet-verified"}}}
				}
			}
		}
		_ = more
	}
	var own []*Obl
	var ks []string
	for k := range c.reps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	called := map[string]bool{}
	for _, k := range ks {
		if owns[k] && isRoot(k) {
			called[k] = true
		}
	}
	for _, k := range ks {
		if !owns[k] && !has(c.p.own, k) {
			continue
		}
		if inl[k] && !isRoot(k) && len(called) > 0 {
			continue // covered by its callers
		}
		own = append(own, failedOf(c.reps[k], func(o *Obl) bool { return c.p.concerns(k, o) })...)
	}
	return own
}

// used: contracts used by k, transitively through non-root ones.
func (c *checker) used(k string) []string {
	seen := map[string]bool{}
	var walk func(string)
	walk = func(k string) {
		if r := c.reps[k]; r != nil {
			for _, u := range r.Used {
				if con := spec.contracts[u]; con != nil && !con.trusted && !seen[u] && !isRoot(u) {
					seen[u] = true
					walk(u)
				}
			}
		}
	}
	walk(k)
	return keysOf(seen)
}

func (c *checker) violation(fails []*Obl, input string) int {
	dir := filepath.Join(c.verif, "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.p.id+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\nfailed obligations:\n", c.p.id)
	for _, o := range fails {
		fmt.Fprintf(&sb, "- %s: %s %s %s\n    %s\n    %s\n", o.Fn, o.Kind, o.Name, o.Pos, o.Text, o.Reason)
	}
	if input != "" {
		fmt.Fprintf(&sb, "\nfailing input, found by running the real code against the specification:\n%s\n\nreplay: VERIF_SEED=%d %s falsify %s\n", input, c.seed, os.Args[0], c.p.id)
	} else {
		fmt.Fprintf(&sb, "\nno failing input found:\n%s\n", strings.Join(c.falsify, "\n"))
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	c.evidence(len(fails), nil)
	for i, o := range fails {
		if i < 8 {
			fmt.Printf("failed: %s %s %s: %s\n", o.Fn, o.Kind, o.Name, clip(o.Text, 160))
		}
	}
	if input != "" {
		fmt.Printf("failing input: %s\n", clip(input, 1200))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.p.id, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.p.id, path)
	}
	return 1
}

func (c *checker) evidence(viol int, up []*Obl) {
	type fnEv struct {
		Fn          string         `json:"function"`
		Own         bool           `json:"states_the_property"`
		Obligations int            `json:"obligations"`
		Discharged  int            `json:"discharged"`
		Kinds       map[string]int `json:"kinds"`
		Backends    map[string]int `json:"queries_by_back_end,omitempty"`
		SolverS     float64        `json:"solver_s"`
		Inlined     []string       `json:"executed_in_place,omitempty"`
		Strategies  []string       `json:"strategies,omitempty"`
	}
	var fs []fnEv
	n, d := 0, 0
	var solver float64
	q := 0
	exts := map[string]bool{}
	back := map[string]int{}
	tabs := map[string]string{}
	var samples []string
	var ks []string
	for k := range c.reps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := c.reps[k]
		e := fnEv{Fn: k, Own: has(c.p.own, k), Kinds: map[string]int{}, Backends: r.Backends, SolverS: r.Solver, Inlined: r.Inlined, Strategies: r.Tried}
		for _, o := range r.Obls {
			e.Obligations++
			e.Kinds[o.Kind]++
			if o.OK {
				e.Discharged++
			}
			if o.Kind == "postcondition" && e.Own && len(samples) < 6 && (len(o.Tags) == 0 || has(o.Tags, c.p.id)) {
				samples = append(samples, o.Fn+" "+o.Name+": "+clip(o.Text, 200))
			}
		}
		n += e.Obligations
		d += e.Discharged
		solver += r.Solver
		q += r.Queries
		for _, x := range r.Exts {
			exts[x] = true
		}
		for b, m := range r.Backends {
			back[b] += m
		}
		for _, t := range r.Tabs {
			if t.Equal {
				tabs[t.Table] = "equal to reference " + t.Ref
			}
		}
		fs = append(fs, e)
	}
	as := []string{
		"int, uint and 64-bit arithmetic on lengths, counts and widths is treated as mathematical (no overflow at 2^63; results that depend on a 64-bit argument given by the user are unknown where they may overflow); 8-, 16- and 32-bit arithmetic wraps as in Go",
		"allocation never fails; strings and slices fit in memory",
		"the go/ssa translation of the source and the verification condition generator /verif/vc are trusted",
		"string, rune-decoding, multiplication and division axioms of /verif/vc/strs.go: proved by `vc axioms` (run by the thorough tier) in the theory of byte sequences, where the model of UTF-8 decoding is the only assumption",
		"contracts of strings.HasPrefix, HasSuffix, TrimPrefix, TrimSuffix, Join, utf8.RuneCountInString, utf8.DecodeRuneInString and of the cache library's New, Get and Set are proved of the libraries' source by `vc axioms`; those of strings.Repeat and strings.IndexByte are tested there (bounded); other library contracts are assumed",
		"a match of the escape-sequence pattern starts at the beginning of a character and consists of characters of the pattern",
		"no concurrent use of the table, the width cache or a width condition",
	}
	for _, l := range spec.lemmas {
		if l.trusted {
			as = append(as, "axiom "+l.name+": "+clip(l.ensures[0].src, 200))
		}
	}
	for _, o := range up {
		as = append(as, "contract of another property not discharged at the moment: "+o.Fn+" "+o.Name)
	}
	var tbase []string
	for _, x := range keysOf(exts) {
		tbase = append(tbase, "assumed contract of "+x)
	}
	tbase = append(tbase, "z3 (4.8.12 and newer) and cvc5", "go/packages and go/ssa", "/verif/vc", "reference tables /verif/spec/*.ref")
	ev := map[string]any{
		"property": c.p.id, "tier": c.tier, "seed": c.seed, "level": "proof", "wall_s": time.Since(c.t0).Seconds(), "violations": viol,
		"assumptions": as,
		"coverage": map[string]any{
			"obligations": n, "discharged": d, "checker_cmd": "bin/vc check " + c.p.id, "trusted_base": tbase,
			"functions": fs, "queries": q, "solver_s": solver, "back_ends": back, "tables": tabs, "samples": samples,
			"search_for_failing_inputs": c.falsify, "axioms_and_library": c.cross,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.p.id+".json"), append(b, '\n'), 0o644)
}

func cmdCheck(args []string) {
	tier := env("VERIF_TIER", "quick")
	id := ""
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-tier":
			i++
			tier = args[i]
		default:
			id = args[i]
		}
	}
	p := propByID(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", id)
		os.Exit(2)
	}
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	setup()
	c := &checker{p: p, tier: tier, seed: seed, t0: time.Now(), repo: env("VC_REPO", "/repo"), verif: env("VC_HOME", "/verif"),
		total: 780 * time.Second, reps: map[string]*Report{}, sem: make(chan struct{}, 4)}
	if tier == "thorough" {
		c.total = 3600 * time.Second
	}
	os.Exit(c.run())
}
