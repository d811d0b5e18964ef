package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Native is the harness compiled by the ordinary Go compiler against the repository's working tree.
type Native struct {
	dir     string // scratch directory
	harness string // harness module directory
	modfile string
	env     []string
	bin     string
	race    string
	raceMu  sync.Mutex
	raceErr error
	runs    int64
	sem     chan struct{}
}

var goEnv = []string{"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod", "GONOSUMDB=*", "GOSUMDB=off"}

func (n *Native) goBuild(out string, flags ...string) error {
	args := append([]string{"build", "-modfile=" + n.modfile}, flags...)
	args = append(args, "-o", out, "./cmd")
	c := exec.Command("go", args...)
	c.Dir = n.harness
	c.Env = append(os.Environ(), goEnv...)
	b, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, b)
	}
	return nil
}

func (n *Native) build() error {
	n.bin = filepath.Join(n.dir, "native")
	return n.goBuild(n.bin)
}

func (n *Native) raceBin() (string, error) {
	n.raceMu.Lock()
	defer n.raceMu.Unlock()
	if n.race == "" && n.raceErr == nil {
		p := filepath.Join(n.dir, "native-race")
		if err := n.goBuild(p, "-race"); err != nil {
			n.raceErr = err
		} else {
			n.race = p
		}
	}
	return n.race, n.raceErr
}

type nativeResult struct {
	Outcome string     `json:"outcome"` // ok, fail, assume, panic, timeout, race, deadlock, leak, error
	Msg     string     `json:"msg"`
	Obs     [][]string `json:"obs"`
}

type replayFile struct {
	Fn     string          `json:"fn"`
	Cfg    json.RawMessage `json:"cfg"`
	Inputs []inputRec      `json:"inputs"`
	Real   bool            `json:"exact_arithmetic"`
	Tight  bool            `json:"tight,omitempty"` // tolerate rounding in proportion to the inputs only
}

func (n *Native) run(bin string, rf *replayFile, timeout time.Duration, env ...string) nativeResult {
	n.sem <- struct{}{}
	defer func() { <-n.sem }()
	f, err := os.CreateTemp(n.dir, "in*.json")
	if err != nil {
		return nativeResult{Outcome: "error", Msg: err.Error()}
	}
	b, _ := json.Marshal(rf)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-run", f.Name())
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.WaitDelay = time.Second
	c.Env = append(append(os.Environ(), "GOMEMLIMIT=2GiB", "GORACE=exitcode=66 halt_on_error=1"), env...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &limitWriter{w: &se, n: 1 << 16}
	err = c.Run()
	if ctx.Err() != nil {
		return nativeResult{Outcome: "timeout", Msg: fmt.Sprintf("no result within %s", timeout)}
	}
	res := nativeResult{}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "SYMRESULT ") {
			json.Unmarshal([]byte(l[10:]), &res)
		}
	}
	if ee, ok := err.(*exec.ExitError); ok {
		es := se.String()
		switch {
		case strings.Contains(es, "WARNING: DATA RACE") || ee.ExitCode() == 66:
			return nativeResult{Outcome: "race", Msg: firstLines(es, 14)}
		case strings.Contains(es, "all goroutines are asleep"):
			return nativeResult{Outcome: "deadlock", Msg: "all goroutines are asleep"}
		case ee.ExitCode() == 2:
			return nativeResult{Outcome: "panic", Msg: firstLines(es, 3)}
		}
		if res.Outcome == "" {
			return nativeResult{Outcome: "error", Msg: fmt.Sprintf("exit %d: %s", ee.ExitCode(), firstLines(es, 3))}
		}
	} else if err != nil {
		return nativeResult{Outcome: "error", Msg: err.Error()}
	}
	if res.Outcome == "" {
		res.Outcome = "error"
	}
	return res
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if k := l.n - l.w.Len(); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		l.w.Write(p[:k])
	}
	return len(p), nil
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func bad(o string) bool {
	switch o {
	case "fail", "panic", "timeout", "race", "deadlock", "leak":
		return true
	}
	return false
}

// confirmNative replays a candidate natively and says whether it is to be reported.
func (n *Native) confirmNative(v *Violation) bool {
	rf := &replayFile{Fn: v.Fn, Inputs: v.Inputs, Real: v.Real, Tight: v.Real}
	rf.Cfg, _ = json.Marshal(v.Cfg)
	if v.Race {
		bin, err := n.raceBin()
		if err != nil {
			v.Native = "race build not available: " + err.Error()
			return true
		}
		for i := 0; i < 30; i++ {
			r := n.run(bin, rf, 20*time.Second, "SYM_JITTER="+strconv.Itoa(i), "GOMAXPROCS="+strconv.Itoa(1<<(uint(i)%4)))
			if bad(r.Outcome) {
				v.Native = fmt.Sprintf("reproduced (run %d): %s: %s", i+1, r.Outcome, r.Msg)
				return true
			}
		}
		v.Native = "not reproduced by 30 runs under the race detector; the schedule is given below"
		return true
	}
	to := 10 * time.Second
	r := n.run(n.bin, rf, to)
	if bad(r.Outcome) {
		v.Native = "reproduced: " + r.Outcome + ": " + r.Msg
		return true
	}
	if !v.SchedDep {
		v.Native = "not reproduced: " + r.Outcome + " " + r.Msg
		return false
	}
	t0 := time.Now()
	i := 0
	for ; i < 120 && time.Since(t0) < 25*time.Second; i++ {
		r := n.run(n.bin, rf, to, "SYM_JITTER="+strconv.Itoa(i+1), "GOMAXPROCS="+strconv.Itoa(1<<(uint(i)%4)))
		if bad(r.Outcome) {
			v.Native = fmt.Sprintf("reproduced (run %d with scheduling jitter): %s: %s", i+1, r.Outcome, r.Msg)
			return true
		}
	}
	v.Native = fmt.Sprintf("schedule-dependent: not reproduced by %d native runs; the failing schedule is given below and is replayed deterministically by the engine", i)
	return true
}

func (s *pathSample) agrees(r nativeResult, real bool) (bool, string) {
	if s.Outcome == "unsupported" {
		return !bad(r.Outcome), r.Outcome + " " + r.Msg
	}
	if r.Outcome == "assume" && real {
		return true, ""
	}
	if r.Outcome != "ok" {
		return false, "native outcome " + r.Outcome + " " + r.Msg
	}
	if s.Sched {
		return true, "" // observations may depend on the schedule
	}
	if len(r.Obs) != len(s.Expect) {
		return false, fmt.Sprintf("%d observations, expected %d", len(r.Obs), len(s.Expect))
	}
	for i := range r.Obs {
		if len(r.Obs[i]) != len(s.Expect[i]) {
			return false, "observation length"
		}
		for j := range r.Obs[i] {
			a, b := r.Obs[i][j], s.Expect[i][j]
			if a == b || b == "?" || strings.HasPrefix(b, "<") {
				continue
			}
			if real {
				x, e1 := strconv.ParseFloat(a, 64)
				y, e2 := strconv.ParseFloat(b, 64)
				d := x - y
				if e1 == nil && e2 == nil && d < 1e-6 && d > -1e-6 {
					continue
				}
			}
			return false, fmt.Sprintf("observation %d.%d: native %s, engine %s", i, j, a, b)
		}
	}
	return true, ""
}
