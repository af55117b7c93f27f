package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vc verify|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "falsify":
		cmdFalsify(os.Args[2:])
	case "locals":
		setup()
		cmdLocals()
	case "funcs":
		setup()
		for _, k := range world.order {
			fmt.Println(k, world.funcs[k].Signature)
		}
	case "axioms":
		cmdAxioms(os.Args[2:])
	case "verify":
		cmdVerify(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func env(k, d string) string {
	if s := os.Getenv(k); s != "" {
		return s
	}
	return d
}

func setup() {
	w, err := load(env("VC_REPO", "/repo"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	world = w
	dir := env("VC_SPEC", "/verif/spec")
	if err := loadRefs(dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	loadSpecs(dir)
	if withLibs {
		loadSpecs(dir + "/lib")
		libContracts()
	}
	installData()
}

// verify [-d] [-v] [-inline a,b] [-json] key...
func cmdVerify(args []string) {
	opt := Options{inline: map[string]bool{}, limit: 600 * time.Second, quick: 4000, hard: 20000, par: 3}
	js := false
	var keys []string
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-d":
			debugOn = true
		case "-v":
			debugOn = true
			debugVerbose = true
		case "-narrow":
			opt.narrow = true
		case "-json":
			js = true
		case "-inline":
			i++
			for _, k := range strings.Split(args[i], ",") {
				if k != "" {
					opt.inline[k] = true
				}
			}
		case "-limit":
			i++
			d, _ := time.ParseDuration(args[i])
			opt.limit = d
		default:
			keys = append(keys, args[i])
		}
	}
	setup()
	var reps []*Report
	for _, k := range keys {
		var r *Report
		if strings.HasPrefix(k, "lemma.") {
			r = nil
			for i, lm := range spec.lemmas {
				if "lemma."+lm.name == k && !lm.trusted {
					r = verifyLemma(i, opt)
				}
			}
			if r == nil {
				fmt.Fprintln(os.Stderr, "no lemma", k)
				os.Exit(2)
			}
		} else {
			if len(axioms) == 0 || !lemmasIn {
				installLemmas(-1)
				lemmasIn = true
			}
			r = verifyFn(k, opt)
		}
		reps = append(reps, r)
		if !js {
			printReport(r)
		}
	}
	if js {
		b, _ := json.Marshal(reps)
		os.Stdout.Write(b)
	}
	for _, r := range reps {
		if !r.OK {
			os.Exit(1)
		}
	}
}

var lemmasIn bool

func printReport(r *Report) {
	st := "OK"
	if !r.OK {
		st = "FAILED " + r.Err
	}
	fmt.Printf("%s: %s  %d obligations, %d queries, %d paths, %.1fs solver, %.1fs\n", r.Fn, st, len(r.Obls), r.Queries, r.Paths, r.Solver, r.Wall)
	if slowLog {
		for k, d := range profT {
			fmt.Printf("   time %s: %v in %d\n", k, d, profN[k])
		}
	}
	for _, o := range r.Obls {
		if !o.OK {
			fmt.Printf("   FAILED %s %s: %s\n", o.Kind, o.Name, o.Text)
		}
	}
}
