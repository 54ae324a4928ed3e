package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func buildReplay(verif, pkgDir string, vtime bool) (string, string, error) {
	env := goEnv()
	if vtime {
		env = append(env, "GOEXPERIMENT=synctest")
	}
	bin := filepath.Join(verif, "work", "bin", pkgDir)
	os.MkdirAll(filepath.Dir(bin), 0o755)
	out, err := runCmd(filepath.Join(verif, "h"), env, "go", "build", "-o", bin, "./"+pkgDir)
	return bin, out, err
}

type replayInput struct {
	Harness string     `json:"harness"`
	Tier    string     `json:"tier"`
	Inputs  []InputVal `json:"inputs"`
	VTime   bool       `json:"vtime,omitempty"`
}

// virtualTime holds the harnesses to be replayed under virtual time, as they
// are explored.
var virtualTime sync.Map

type nativeResult struct {
	code    int
	timeout bool
	out     string
	obs     []string
	covers  []string
}

func runNative(bin, dir, harness string, inputs []InputVal, timeout time.Duration, jitter int) nativeResult {
	f, err := os.CreateTemp(dir, "in*.json")
	if err != nil {
		return nativeResult{code: -1, out: err.Error()}
	}
	defer os.Remove(f.Name())
	_, vt := virtualTime.Load(harness)
	b, _ := json.Marshal(replayInput{VTime: vt, Harness: harness, Inputs: inputs, Tier: os.Getenv("VERIF_TIER")})
	f.Write(b)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, harness, f.Name())
	c.Env = append(goEnv(), "VERIF_JITTER="+strconv.Itoa(jitter), "GOTRACEBACK=single", "TZ=UTC")
	if vt {
		c.Env = append(c.Env, "GODEBUG=asynctimerchan=0")
	}
	out, err := c.CombinedOutput()
	r := nativeResult{out: string(out)}
	if ctx.Err() != nil {
		r.timeout = true
	}
	if err != nil {
		r.code = c.ProcessState.ExitCode()
	}
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "OBS ") {
			r.obs = append(r.obs, l[4:])
		}
		if strings.HasPrefix(l, "COVER ") {
			r.covers = append(r.covers, l[6:])
		}
	}
	sort.Strings(r.covers)
	return r
}

// replayViolation runs the counterexample against the real code.
func replayViolation(bin string, v *Violation, verif, prop string) (bool, string) {
	dir := filepath.Join(verif, "work", "tmp")
	os.MkdirAll(dir, 0o755)
	n := 1
	if len(v.Sched) > 0 && !v.Hang {
		n = 60
	} else if v.Hang {
		n = 4
	}
	last := ""
	for i := 0; i < n; i++ {
		r := runNative(bin, dir, v.Harness, v.Inputs, 10*time.Second, i)
		switch {
		case r.timeout:
			return true, "reproduced natively: run does not terminate (killed after 10s)"
		case r.code == 10:
			return true, "reproduced natively: " + firstLine(r.out, "VIOLATED")
		case r.code == 2:
			return true, "reproduced natively: program crashed: " + firstLine(r.out, "panic:", "fatal error:")
		case r.code == 11:
			last = "assumption failed natively: " + firstLine(r.out, "ASSUME")
		case r.code == 0:
			last = "native run passed"
		default:
			last = fmt.Sprintf("native run exit %d: %s", r.code, r.out)
		}
		if r.code == 11 && len(v.Sched) == 0 {
			break
		}
	}
	if v.Hang {
		return false, last
	}
	if len(v.Sched) > 0 && !strings.Contains(last, "exit") {
		return true, "schedule counterexample of the encoded code (schedule recorded; " + last + " under the native scheduler)"
	}
	return false, last
}

func firstLine(out string, keys ...string) string {
	for _, l := range strings.Split(out, "\n") {
		for _, k := range keys {
			if strings.Contains(l, k) {
				return l
			}
		}
	}
	if len(out) > 200 {
		out = out[:200]
	}
	return out
}

func writeReplay(verif, prop string, v *Violation) string {
	dir := filepath.Join(verif, "work", "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, v.Harness, time.Now().UnixNano()%1e9))
	_, vt := virtualTime.Load(v.Harness)
	b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": v.Harness, "tier": os.Getenv("VERIF_TIER"), "msg": v.Msg, "vtime": vt,
		"inputs": v.Inputs, "schedule": v.Sched, "decisions": v.Taken, "replay_result": v.Replay,
		"how": "cd /verif && ./work/bin/" + strings.ToLower(prop) + " " + v.Harness + " <this file>"}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

// differs tells whether a native run does not do what the encoding predicts.
func differs(nr nativeResult, s PathSample) bool {
	return nr.timeout || nr.code != 0 || !s.Sched && (strings.Join(nr.obs, "|") != strings.Join(s.Obs, "|") ||
		strings.Join(nr.covers, "|") != strings.Join(s.Covers, "|"))
}

// validateSamples replays models of completed paths through the real build
// and compares the observations with those predicted by the encoding.
func validateSamples(bin string, r *HarnessResult, verif, prop string) (int, int, []string, *Violation) {
	dir := filepath.Join(verif, "work", "tmp")
	os.MkdirAll(dir, 0o755)
	max := 24
	var pick []PathSample
	ss := r.Samples
	if len(ss) <= max {
		pick = ss
	} else {
		for i := 0; i < max; i++ {
			pick = append(pick, ss[i*len(ss)/max])
		}
	}
	var mu sync.Mutex
	ok := 0
	var errs []string
	var viol *Violation
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, s := range pick {
		s := s
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			nr := runNative(bin, dir, r.Name, s.Inputs, 20*time.Second, 0)
			// A failure which does not come again depends on the schedule,
			// which the exploration decides, or on the load of the machine.
			for i := 1; i < 4 && differs(nr, s); i++ {
				nr = runNative(bin, dir, r.Name, s.Inputs, 60*time.Second, 0)
			}
			mu.Lock()
			defer mu.Unlock()
			switch {
			case nr.timeout:
				errs = append(errs, "native run timed out on "+jsonStr(s.Inputs))
			case nr.code != 0 && s.Sched && nr.code == 11:
				// another schedule was taken natively; not comparable
			case nr.code == 10 || nr.code == 2 && (strings.Contains(nr.out, "panic: ") || strings.Contains(nr.out, "fatal error: ")):
				// the model of a path that holds in the encoding, where maps
				// have one order and so on, breaks the property natively
				msg := nr.out
				if i := strings.Index(msg, "VIOLATED "); i >= 0 {
					msg = msg[i+9:]
				}
				msg, _, _ = strings.Cut(msg, "\n")
				viol = &Violation{Harness: r.Name, Msg: msg, Inputs: s.Inputs, Replay: "found by the native run of a path model"}
			case nr.code != 0:
				errs = append(errs, fmt.Sprintf("native run exit %d on %s: %s", nr.code, jsonStr(s.Inputs), nr.out))
			case !s.Sched && strings.Join(nr.obs, "|") != strings.Join(s.Obs, "|"):
				errs = append(errs, fmt.Sprintf("observations differ: encoded %v native %v inputs %s", s.Obs, nr.obs, jsonStr(s.Inputs)))
			case !s.Sched && strings.Join(nr.covers, "|") != strings.Join(s.Covers, "|"):
				errs = append(errs, fmt.Sprintf("covers differ: encoded %v native %v inputs %s", s.Covers, nr.covers, jsonStr(s.Inputs)))
			default:
				ok++
			}
		}()
	}
	wg.Wait()
	return ok, len(pick), errs, viol
}
