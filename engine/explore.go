package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is one reported property violation.
type Violation struct {
	Harness string     `json:"harness"`
	Msg     string     `json:"msg"`
	Inputs  []InputVal `json:"inputs"`
	Sched   []string   `json:"schedule,omitempty"`
	Taken   []int32    `json:"decisions"`
	Replay  string     `json:"replay_result,omitempty"`
	Known   string     `json:"-"`
	Hang    bool       `json:"hang,omitempty"` // suspected non-termination, to be confirmed natively
}

// HarnessResult aggregates one harness.
type HarnessResult struct {
	Name       string
	Opts       Options
	Paths      int
	Done       int
	Infeasible int
	Bound      int
	Incon      int
	Unsup      int
	Asserts    int
	Branches   int
	Steps      int
	Covers     map[string]int
	Violations []*Violation
	Errors     []string
	Samples    []PathSample
	Queries    int
	SatN       int
	UnsatN     int
	UnknownN   int
	SolverTime time.Duration
	Wall       time.Duration
	Fns        map[string]int
	Truncated  bool
	SchedPaths int
}

// PathSample is one completed path with concrete inputs.
type PathSample struct {
	Inputs []InputVal `json:"inputs"`
	Obs    []string   `json:"obs"`
	Covers []string   `json:"covers"`
	Sched  bool       `json:"sched"`
}

type explorer struct {
	mu     sync.Mutex
	cond   *sync.Cond
	stack  []*Item
	active int
	stop   bool
}

// runHarness explores all paths of one harness function.
func (e *Engine) runHarness(fn *ssa.Function, opts Options, workers int, solverKind string, deadline time.Time, mach []*Machine) *HarnessResult {
	t0 := time.Now()
	res := &HarnessResult{Name: fn.Name(), Opts: opts, Covers: map[string]int{}, Fns: map[string]int{}}
	ex := &explorer{}
	ex.cond = sync.NewCond(&ex.mu)
	ex.stack = []*Item{{}}
	var wg sync.WaitGroup
	seenViol := map[string]bool{}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		m := mach[w]
		go func() {
			defer wg.Done()
			if m.solver == nil {
				s, err := NewSolver(solverKind, 30*time.Second)
				if err != nil {
					panic(err)
				}
				m.solver = s
			}
			m.opts = opts
			for _, f := range m.fns {
				f.calls = 0
			}
			q0, s0, u0, k0, st0 := m.solver.Queries, m.solver.SatN, m.solver.UnsatN, m.solver.UnknownN, m.solver.Time
			for {
				ex.mu.Lock()
				for len(ex.stack) == 0 && ex.active > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.stack) == 0 {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					break
				}
				it := ex.stack[len(ex.stack)-1]
				ex.stack = ex.stack[:len(ex.stack)-1]
				ex.active++
				ex.mu.Unlock()

				pr := m.runPath(fn, it)

				ex.mu.Lock()
				ex.active--
				ex.stack = append(ex.stack, pr.Alts...)
				res.Paths++
				res.Asserts += pr.Asserts
				res.Branches += pr.Branches
				res.Steps += pr.Steps
				for c := range pr.Covers {
					res.Covers[c]++
				}
				if len(pr.Sched) > 0 {
					res.SchedPaths++
				}
				switch pr.Stop.kind {
				case "done":
					res.Done++
					if len(res.Samples) < 400 {
						ps := PathSample{Inputs: pr.Inputs, Obs: pr.Obs, Sched: len(pr.Sched) > 0}
						for c := range pr.Covers {
							ps.Covers = append(ps.Covers, c)
						}
						sort.Strings(ps.Covers)
						res.Samples = append(res.Samples, ps)
					}
				case "infeasible":
					res.Infeasible++
				case "violation":
					if !seenViol[pr.Stop.msg] && len(res.Violations) < 12 {
						seenViol[pr.Stop.msg] = true
						res.Violations = append(res.Violations, &Violation{Harness: fn.Name(), Msg: pr.Stop.msg,
							Inputs: pr.Inputs, Sched: pr.Sched, Taken: pr.Taken})
					} else {
						for _, v := range res.Violations {
							// prefer counterexamples without scheduling
							if v.Msg == pr.Stop.msg && len(v.Sched) > len(pr.Sched) {
								v.Inputs, v.Sched, v.Taken = pr.Inputs, pr.Sched, pr.Taken
							}
						}
					}
					if len(res.Violations) >= 6 {
						ex.stop = true
					}
				case "bound":
					res.Bound++
					if strings.HasPrefix(pr.Stop.msg, "step bound") {
						// suspected endless run: decided by the native replay
						res.Violations = append(res.Violations, &Violation{Harness: fn.Name(), Msg: "the run does not terminate: " + pr.Stop.msg,
							Inputs: pr.Inputs, Sched: pr.Sched, Taken: pr.Taken, Hang: true})
						ex.stop = true
					} else {
						res.addErr("bound: " + pr.Stop.msg)
					}
				case "inconclusive":
					res.Incon++
					res.addErr("inconclusive: " + pr.Stop.msg)
				default:
					res.Unsup++
					res.addErr(pr.Stop.kind + ": " + pr.Stop.msg + "\n" + pr.EngErr)
					if res.Unsup > 20 {
						ex.stop = true
					}
				}
				if res.Paths >= opts.MaxPaths || time.Now().After(deadline) {
					if len(ex.stack) > 0 || ex.active > 0 {
						res.Truncated = true
					}
					ex.stop = true
				}
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
			ex.mu.Lock()
			res.Queries += m.solver.Queries - q0
			res.SatN += m.solver.SatN - s0
			res.UnsatN += m.solver.UnsatN - u0
			res.UnknownN += m.solver.UnknownN - k0
			res.SolverTime += m.solver.Time - st0
			for f, mf := range m.fns {
				if mf.calls > 0 {
					res.Fns[f.String()] += mf.calls
				}
			}
			for _, er := range m.solver.errors {
				res.addErr("solver: " + er)
			}
			m.solver.errors = nil
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
	res.Wall = time.Since(t0)
	return res
}

func (r *HarnessResult) addErr(s string) {
	if len(r.Errors) < 8 {
		for _, x := range r.Errors {
			if x == s {
				return
			}
		}
		r.Errors = append(r.Errors, s)
	}
}

func parseOpts(doc string, thorough bool) (Options, map[string]string) {
	o := defaultOptions()
	kv := map[string]string{}
	for _, line := range strings.Split(doc, "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "verif:") {
			continue
		}
		for _, f := range strings.Fields(strings.TrimPrefix(line, "verif:")) {
			p := strings.SplitN(f, "=", 2)
			if len(p) == 1 {
				p = append(p, "1")
			}
			if strings.HasPrefix(p[0], "t.") {
				if !thorough {
					continue
				}
				p[0] = p[0][2:]
			}
			kv[p[0]] = p[1]
			n, _ := strconv.Atoi(p[1])
			switch p[0] {
			case "preempt":
				o.Preempt = n
			case "steps":
				o.Steps = n
			case "depth":
				o.Depth = n
			case "maporder":
				o.MapOrder = p[1]
			case "timers":
				o.Timers = n != 0

			case "deadlock":
				o.Deadlock = p[1]
			case "maxpaths":
				o.MaxPaths = n
			case "maxconc":
				o.MaxConcret = n
			}
		}
	}
	return o, kv
}

func numWorkers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	return n
}

func jsonStr(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

var _ = fmt.Sprint
