package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The search for a failing input: the real code is run on generated inputs
// against an executable form of the specification (/verif/falsify). It is only
// used when an obligation fails, to replay the failure on the real code.

type Hints struct {
	Runes   []int64  `json:"runes"`
	Ints    []int64  `json:"ints"`
	Strings []string `json:"strings"`
}

// mine collects the literals of the source, and the code points where its
// tables differ from the references.
func mine(reps map[string]*Report) *Hints {
	h := &Hints{}
	si, ss, sr := map[int64]bool{}, map[string]bool{}, map[int64]bool{}
	for _, p := range world.pkgs {
		for _, f := range p.Syntax {
			var is []int64
			var strs []string
			ast.Inspect(f, func(n ast.Node) bool {
				switch l := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BasicLit:
					switch l.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
							is = append(is, v)
						}
					case token.CHAR:
						if v, _, _, err := strconv.UnquoteChar(l.Value[1:len(l.Value)-1], '\''); err == nil {
							is = append(is, int64(v))
						}
					case token.STRING:
						if v, err := strconv.Unquote(l.Value); err == nil && len(v) < 200 {
							strs = append(strs, v)
						}
					}
				}
				return true
			})
			if len(is) > 400 {
				is = is[:0]
			}
			for _, v := range is {
				if !si[v] {
					si[v] = true
					h.Ints = append(h.Ints, v)
				}
			}
			for _, v := range strs {
				if !ss[v] {
					ss[v] = true
					h.Strings = append(h.Strings, v)
				}
			}
		}
	}
	for _, r := range reps {
		for _, t := range r.Tabs {
			if !t.Equal && len(t.Diff) < 2000 {
				for _, x := range t.Diff {
					if !sr[x] {
						sr[x] = true
						h.Runes = append(h.Runes, x)
					}
				}
			}
		}
	}
	sort.Slice(h.Ints, func(i, j int) bool { return h.Ints[i] < h.Ints[j] })
	sort.Slice(h.Runes, func(i, j int) bool { return h.Runes[i] < h.Runes[j] })
	sort.Strings(h.Strings)
	return h
}

// search looks for an input on which the real code breaks the property.
func (c *checker) search(secs int) string {
	if l := int(c.left().Seconds()) - 20; l < secs {
		secs = l
	}
	if secs < 5 {
		c.falsify = append(c.falsify, "no time left to search")
		return ""
	}
	c.tries++
	tmp, err := os.MkdirTemp("", "vcf")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(tmp)
	hb, _ := json.Marshal(mine(c.reps))
	hf := filepath.Join(tmp, "hints.json")
	os.WriteFile(hf, hb, 0o644)
	dir := filepath.Join(c.verif, "falsify")
	runs := []struct {
		pkg   string
		files map[string]string
	}{{".", map[string]string{}}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go.txt"))
	for _, f := range fs {
		b := strings.TrimSuffix(filepath.Base(f), ".go.txt")
		if strings.HasPrefix(b, "in_") {
			continue
		}
		runs[0].files[filepath.Join(c.repo, "zz_verif_"+b+"_test.go")] = f
	}
	if c.p.id == "C21" || c.p.id == "C20" {
		runs = append(runs, struct {
			pkg   string
			files map[string]string
		}{"./runewidth", map[string]string{filepath.Join(c.repo, "runewidth", "zz_verif_test.go"): filepath.Join(dir, "in_runewidth.go.txt")}})
	}
	for i, r := range runs {
		ov := filepath.Join(tmp, fmt.Sprintf("ov%d.json", i))
		b, _ := json.Marshal(map[string]any{"Replace": r.files})
		os.WriteFile(ov, b, 0o644)
		budget := secs / len(runs)
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget+60)*time.Second)
		cmd := exec.CommandContext(ctx, "go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", budget+50), "-run", "^TestVerifFalsify$", r.pkg)
		cmd.Dir = c.repo
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.WaitDelay = 5 * time.Second
		e := []string{}
		for _, kv := range os.Environ() {
			switch k, _, _ := strings.Cut(kv, "="); k {
			case "LC_ALL", "LC_CTYPE", "LANG", "RUNEWIDTH_EASTASIAN", "GOFLAGS", "GOMEMLIMIT":
			default:
				e = append(e, kv)
			}
		}
		cmd.Env = append(e, "LANG=C.UTF-8", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off",
			"VERIF_PROP="+c.p.id, fmt.Sprintf("VERIF_BUDGET=%d", budget), fmt.Sprintf("VERIF_SEED=%d", c.seed+int64(c.tries-1)*1000), "VERIF_REF="+env("VC_SPEC", "/verif/spec"), "VERIF_HINTS="+hf)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		t0 := time.Now()
		cmd.Run()
		cancel()
		note := ""
		for _, l := range strings.Split(out.String(), "\n") {
			if strings.HasPrefix(l, "FALSIFIED ") {
				return strings.TrimPrefix(l, "FALSIFIED ")
			}
			if strings.HasPrefix(l, "TRIED ") {
				note = l
			}
		}
		if note == "" {
			note = "the search ended without an answer: " + clip(strings.TrimSpace(out.String()), 600)
		}
		c.falsify = append(c.falsify, fmt.Sprintf("%s: %s (%.0fs)", r.pkg, note, time.Since(t0).Seconds()))
	}
	return ""
}

// falsify Cxx [secs]: the search alone.
func cmdFalsify(args []string) {
	p := propByID(args[0])
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", args[0])
		os.Exit(2)
	}
	secs := 20
	if len(args) > 1 {
		secs, _ = strconv.Atoi(args[1])
	}
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	setup()
	c := &checker{p: p, tier: "quick", seed: seed, t0: time.Now(), repo: env("VC_REPO", "/repo"), verif: env("VC_HOME", "/verif"), total: 3600 * time.Second, reps: map[string]*Report{}}
	for name, v := range world.frozen {
		_ = name
		_ = v
	}
	if in := c.search(secs); in != "" {
		fmt.Println("FALSIFIED", in)
		os.Exit(1)
	}
	fmt.Println(strings.Join(c.falsify, "\n"))
}
