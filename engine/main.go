package main

import (
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harness struct {
	fn   *ssa.Function
	name string
	doc  string
}

func main() {
	prop := flag.String("p", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verif := flag.String("verif", "/verif", "verif dir")
	only := flag.String("run", "", "regexp of harnesses")
	verbose := flag.Bool("v", false, "verbose")
	sol := flag.String("solver", "z3-new", "solver")
	noreplay := flag.Bool("noreplay", false, "skip native replay (development)")
	flag.Parse()
	if f := os.Getenv("SYMPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	if *tier == "" {
		*tier = "quick"
	}
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(10 << 30)
	rc := runCheck(*prop, *tier, *verif, *only, *sol, *verbose, *noreplay)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func (e *Engine) harnesses(only string) []harness {
	var out []harness
	var re *regexp.Regexp
	if only != "" {
		re = regexp.MustCompile(only)
	}
	for i, p := range e.pkgs {
		sp := e.main[i]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "Harness") {
					continue
				}
				if re != nil && !re.MatchString(fd.Name.Name) {
					continue
				}
				doc := ""
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						doc += strings.TrimPrefix(strings.TrimPrefix(c.Text, "//"), " ") + "\n"
					}
				}
				out = append(out, harness{sp.Func(fd.Name.Name), fd.Name.Name, doc})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func runCheck(prop, tier, verif, only, sol string, verbose, noreplay bool) int {
	t0 := time.Now()
	for _, kv := range goEnv() {
		i := strings.IndexByte(kv, '=')
		os.Setenv(kv[:i], kv[i+1:])
	}
	os.Unsetenv("GOROOT")
	pkgDir := strings.ToLower(prop)
	hdir := filepath.Join(verif, "h")
	if out, err := prepare(verif, prop); err != nil {
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 3 {
			return generationViolation(verif, prop, tier, sol, out, t0)
		}
		fmt.Printf("ERROR prepare: %v\n%s\n", err, out)
		return 2
	}
	e, err := loadProgram(hdir, nil, []string{"./" + pkgDir}, goEnv())
	if err != nil && missingAPI(verif, prop, err.Error()) {
		return generationViolation(verif, prop, tier, sol, "the generated code does not offer the expected API\n"+err.Error(), t0)
	}
	if err != nil {
		fmt.Println("ERROR load:", err)
		return 2
	}
	e.verbose = verbose
	e.thorough = tier == "thorough"
	fmt.Printf("loaded %s in %.1fs\n", prop, time.Since(t0).Seconds())
	bin, bout, err := "", "", error(nil)
	if !noreplay {
		vtime := false
		for _, h := range e.harnesses(only) {
			if _, kv := parseOpts(h.doc, tier == "thorough"); kv["vtime"] != "" {
				vtime = true
			}
		}
		bin, bout, err = buildReplay(verif, pkgDir, vtime)
		if err != nil {
			fmt.Printf("ERROR building replay binary: %v\n%s\n", err, bout)
			return 2
		}
	}
	budget := 780 * time.Second
	deadline := t0.Add(budget)
	nw := numWorkers()
	machines := make([]*Machine, nw)
	for i := range machines {
		machines[i] = newMachine(e, i)
	}
	defer func() {
		for _, m := range machines {
			if m.solver != nil {
				m.solver.Close()
			}
		}
	}()
	known := loadKnown(verif)
	var results []*HarnessResult
	bad := false
	violated := false
	validated, validTotal := 0, 0
	for _, h := range e.harnesses(only) {
		opts, kv := parseOpts(h.doc, tier == "thorough")
		if kv["tier"] == "thorough" && tier != "thorough" {
			continue
		}
		if kv["vtime"] != "" {
			virtualTime.Store(h.fn.Name(), true)
		}
		r := e.runHarness(h.fn, opts, nw, sol, deadline, machines)
		results = append(results, r)
		fmt.Printf("%-40s paths=%d done=%d infeasible=%d viol=%d asserts=%d queries=%d (unsat %d) solver=%.1fs wall=%.1fs bound=%d unsup=%d\n",
			h.name, r.Paths, r.Done, r.Infeasible, len(r.Violations), r.Asserts, r.Queries, r.UnsatN, r.SolverTime.Seconds(), r.Wall.Seconds(), r.Bound, r.Unsup)
		if len(r.Covers) > 0 && verbose {
			fmt.Println("   covers:", r.Covers)
		}
		// reachability witnesses
		if len(r.Violations) == 0 {
			for _, c := range strings.Split(kv["cover"], ",") {
				if c != "" && r.Covers[c] == 0 {
					r.addErr("vacuous: cover point " + c + " never reached")
				}
			}
			if r.Done == 0 {
				r.addErr("vacuous: no path completed")
			}
		}
		// native replay of violations
		for _, v := range r.Violations {
			if k := known.match(prop, v); k != "" {
				v.Known = k
				continue
			}
			confirmed, how := true, "not replayed"
			if !noreplay {
				confirmed, how = replayViolation(bin, v, verif, prop)
			}
			v.Replay = how
			if confirmed {
				path := writeReplay(verif, prop, v)
				fmt.Printf("  violation in %s: %s\n  replay: %s\n", v.Harness, v.Msg, how)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
				violated = true
			} else {
				r.addErr("counterexample did not reproduce natively: " + v.Msg + " (" + how + ") inputs=" + jsonStr(v.Inputs))
			}
		}
		if r.Truncated {
			r.addErr("exploration truncated (bound not covered)")
		}
		if !noreplay && !violated {
			n, tot, errs, nv := validateSamples(bin, r, verif, prop)
			validated += n
			validTotal += tot
			if nv != nil && known.match(prop, nv) == "" {
				path := writeReplay(verif, prop, nv)
				fmt.Printf("  violation in %s: %s\n  replay: %s\n", nv.Harness, nv.Msg, nv.Replay)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
				violated = true
			}
			for _, x := range errs {
				r.addErr("translator validation: " + x)
			}
		}
		for _, x := range r.Errors {
			fmt.Printf("  ERROR %s: %s\n", h.name, x)
			bad = true
		}
	}
	known.report(prop, results)
	if len(results) == 0 {
		fmt.Println("ERROR no harness")
		bad = true
	}
	writeEvidence(e, verif, prop, tier, results, validated, validTotal, time.Since(t0), sol, violated)
	fmt.Printf("total %.1fs validated %d/%d path models natively\n", time.Since(t0).Seconds(), validated, validTotal)
	if violated {
		return 1
	}
	if bad {
		return 2
	}
	return 0
}
