package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func prepare(verif, prop string) (string, error) {
	s := filepath.Join(verif, "h", strings.ToLower(prop), "prepare.sh")
	if _, err := os.Stat(s); err != nil {
		return "", nil
	}
	return runCmd(verif, goEnv(), "bash", s)
}

// Known findings: one JSON object per line in known_findings.jsonl.
type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

type knownSet struct{ all []knownFinding }

func loadKnown(verif string) *knownSet {
	k := &knownSet{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "fixed:") || strings.HasPrefix(l, "#") {
			continue
		}
		var f knownFinding
		if json.Unmarshal([]byte(l), &f) == nil && f.Fixed == "" {
			k.all = append(k.all, f)
		}
	}
	return k
}

func (k *knownSet) match(prop string, v *Violation) string {
	for _, f := range k.all {
		if f.Property == prop && f.Harness == v.Harness && f.Msg == v.Msg {
			return f.What
		}
	}
	return ""
}

func (k *knownSet) report(prop string, rs []*HarnessResult) {
	for _, r := range rs {
		for _, v := range r.Violations {
			if v.Known != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, v.Known)
			}
		}
	}
}

func writeEvidence(e *Engine, verif, prop, tier string, rs []*HarnessResult, validated, vtot int, wall time.Duration, solver string, violated bool) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	states, trans, q, unsat, sat, unk, asserts := 0, 0, 0, 0, 0, 0, 0
	st := time.Duration(0)
	fns := map[string]bool{}
	var hs []any
	var samples []any
	nviol := 0
	truncated := false
	for _, r := range rs {
		truncated = truncated || r.Truncated
		states += r.Paths
		trans += r.Branches
		q += r.Queries
		unsat += r.UnsatN
		sat += r.SatN
		unk += r.UnknownN
		asserts += r.Asserts
		st += r.SolverTime
		nviol += len(r.Violations)
		for f := range r.Fns {
			if strings.Contains(f, "lerenn/asyncapi-codegen") || strings.Contains(f, "verifh/gen") {
				fns[f] = true
			}
		}
		hs = append(hs, map[string]any{"harness": r.Name, "paths": r.Paths, "completed": r.Done, "infeasible": r.Infeasible,
			"assertions_discharged_or_checked": r.Asserts, "queries": r.Queries, "unsat": r.UnsatN, "solver_s": r.SolverTime.Seconds(),
			"covers": r.Covers, "preemption_bound": r.Opts.Preempt, "step_bound": r.Opts.Steps, "truncated": r.Truncated,
			"schedules_explored": r.SchedPaths, "instructions": r.Steps})
		for i, s := range r.Samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.Name, "inputs": s.Inputs, "observed": s.Obs, "covers": s.Covers})
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	bounds, assumptions := readBounds(verif, prop)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":  !violated && !truncated,
			"explanation": "bounded symbolic execution of the go/ssa form of the current /repo tree; states = feasible symbolic paths executed, transitions = symbolic branch decisions; every input, schedule and fault choice is a solver variable",
			"harnesses":   hs, "functions_encoded": fl, "bounds": bounds, "solver": solver,
			"queries": q, "queries_unsat": unsat, "queries_sat": sat, "queries_unknown": unk, "solver_seconds": st.Seconds(), "assertions": asserts,
			"path_models_replayed_natively": vtot,
		},
		"assumptions": assumptions, "wall_s": wall.Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}

// readBounds extracts "Bounds:" and "Assumptions:" lists from the package doc
// file of the harness (h/<p>/BOUNDS.txt).
func readBounds(verif, prop string) ([]string, []string) {
	var b, a []string
	txt, err := os.ReadFile(filepath.Join(verif, "h", strings.ToLower(prop), "BOUNDS.txt"))
	if err != nil {
		return []string{"see DESIGN.md"}, []string{"see DESIGN.md"}
	}
	cur := &b
	for _, l := range strings.Split(string(txt), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "":
		case strings.HasPrefix(l, "bounds:"):
			cur = &b
		case strings.HasPrefix(l, "assumptions:"):
			cur = &a
		default:
			*cur = append(*cur, strings.TrimPrefix(l, "- "))
		}
	}
	return b, a
}

// generationViolation reports a fixture document for which the generator fails
// or produces unusable code: there is nothing left to execute symbolically.
func generationViolation(verif, prop, tier, sol, out string, t0 time.Time) int {
	dir := filepath.Join(verif, "work", "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, prop+"-generation.txt")
	os.WriteFile(p, []byte(out), 0o644)
	fmt.Println(out)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
	writeEvidence(nil, verif, prop, tier, nil, 0, 0, time.Since(t0), sol, true)
	return 1
}

// missingAPI reports whether load errors are about names of a generated package.
func missingAPI(verif, prop, msg string) bool {
	b, err := os.ReadFile(filepath.Join(verif, "h", strings.ToLower(prop), "prepare.sh"))
	if err != nil {
		return false
	}
	for _, w := range strings.FieldsFunc(string(b), func(r rune) bool { return r == ' ' || r == '\n' || r == '@' }) {
		if _, err := os.Stat(filepath.Join(verif, "h", "gen", w)); err == nil && len(w) > 2 && w[0] != '/' && w[0] != '.' {
			if strings.Contains(msg, w+".") {
				return true
			}
		}
	}
	return false
}
