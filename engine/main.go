// symgo decides properties of Go code by symbolic execution of its SSA form with SMT solvers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "symgo: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	only := flag.String("job", "", "run only jobs whose name contains this")
	budget := flag.Int("budget", 0, "seconds of exploration")
	strict := flag.Bool("strict", os.Getenv("SYMGO_STRICT") != "", "exit 2 when the exploration is incomplete")
	evid := flag.Bool("evidence", true, "write the evidence file")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	verbose := flag.Bool("v", false, "per-job report")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		if f, err := os.Create(*prof); err == nil {
			pprof.StartCPUProfile(f)
		}
	}
	if *prop == "" {
		fatal("-prop is required")
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	start := time.Now()
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 700
		}
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)

	scratch, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fatal("%v", err)
	}
	code := 2
	defer func() {
		if p := recover(); p != nil {
			fmt.Fprintf(os.Stderr, "symgo: %v\n%s", p, debug.Stack())
		}
		os.RemoveAll(scratch)
		pprof.StopCPUProfile()
		os.Exit(code)
	}()

	// the harness module, pointed at the repository's working tree
	hdir := filepath.Join(*verif, "harness")
	mod, err := os.ReadFile(filepath.Join(hdir, "go.mod"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	modfile := filepath.Join(scratch, "go.mod")
	text := strings.ReplaceAll(string(mod), "=> /repo", "=> "+*repo)
	os.WriteFile(modfile, []byte(text), 0o644)
	if sum, err := os.ReadFile(filepath.Join(hdir, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(scratch, "go.sum"), sum, 0o644)
	}
	nat := &Native{dir: scratch, harness: hdir, modfile: modfile, sem: make(chan struct{}, 4)}

	var P *Program
	var e1, e2 error
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); e1 = nat.build() }()
	go func() {
		defer wg.Done()
		P, e2 = LoadProgram(hdir, append(append([]string{}, goEnv...), "GOFLAGS=-mod=mod -modfile="+modfile))
	}()
	wg.Wait()
	if e1 != nil || e2 != nil {
		fmt.Fprintln(os.Stderr, "symgo: build:", e1, e2)
		return
	}
	tLoad := time.Since(start)

	out, err := exec.Command(nat.bin, "-list", *prop, *tier).Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo: listing jobs:", err)
		return
	}
	var jobs []*Job
	if err := json.Unmarshal(out, &jobs); err != nil {
		fmt.Fprintln(os.Stderr, "symgo: jobs:", err)
		return
	}
	if *only != "" {
		var l []*Job
		for _, j := range jobs {
			if strings.Contains(j.Name, *only) {
				l = append(l, j)
			}
		}
		jobs = l
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "symgo: no jobs for", *prop)
		return
	}
	for _, j := range jobs {
		j.Cfg.Preempt = -1
		if err := json.Unmarshal(j.RawCfg, &j.Cfg); err != nil {
			fmt.Fprintln(os.Stderr, "symgo: cfg:", err)
			return
		}
		j.entry = P.harness.Func(j.Fn)
		if j.entry == nil {
			fmt.Fprintln(os.Stderr, "symgo: no harness", j.Fn)
			return
		}
	}
	known := loadKnown(filepath.Join(*verif, "known_findings.txt"), *prop)

	ex := &Explorer{P: P, jobs: jobs, cache: NewSharedCache(), softMS: 1500, hardS: 20, nSamples: 3,
		deadline: start.Add(time.Duration(*budget) * time.Second)}
	ex.crossN, ex.crossMax = 29, 150
	if *tier == "thorough" {
		ex.hardS = 60
		ex.nSamples = 6
		ex.crossN, ex.crossMax = 11, 2000
	}
	var validated, unsupRuns int64
	var knownMu sync.Mutex
	knownHit := map[string]string{}
	ex.confirm = func(v *Violation) bool {
		v.Property = *prop
		if k := known.match(v); k != "" {
			knownMu.Lock()
			knownHit[k] = v.Msg
			knownMu.Unlock()
			return false
		}
		if nat.confirmNative(v) {
			return true
		}
		v.job.mu.Lock()
		v.job.mismatch = append(v.job.mismatch, fmt.Sprintf("%s: %s (%s) inputs %s", v.What, v.Msg, v.Native, inputsString(v.Inputs)))
		v.job.mu.Unlock()
		return false
	}
	type vreq struct {
		j *Job
		s *pathSample
	}
	vq := make(chan vreq, 10000)
	var vwg sync.WaitGroup
	for i := 0; i < 2; i++ {
		vwg.Add(1)
		go func() {
			defer vwg.Done()
			for q := range vq {
				if ex.stopAll.Load() || time.Since(start) > time.Duration(*budget+60)*time.Second {
					continue
				}
				rf := &replayFile{Fn: q.j.Fn, Cfg: q.j.RawCfg, Inputs: q.s.Inputs, Real: q.j.Cfg.Real}
				r := nat.run(nat.bin, rf, 15*time.Second)
				ok, why := q.s.agrees(r, q.j.Cfg.Real)
				if q.s.Outcome == "unsupported" {
					atomic.AddInt64(&unsupRuns, 1)
					if !ok {
						v := &Violation{Property: *prop, Job: q.j.Name, Fn: q.j.Fn, What: r.Outcome, Msg: r.Msg, Inputs: q.s.Inputs, Real: q.j.Cfg.Real, job: q.j,
							Native: "concrete representative of a path outside the encoding fails natively: " + why}
						json.Unmarshal(q.j.RawCfg, &v.Cfg)
						ex.mu.Lock()
						ex.viols = append(ex.viols, v)
						ex.mu.Unlock()
					}
					continue
				}
				if ok {
					atomic.AddInt64(&validated, 1)
					q.j.mu.Lock()
					q.j.validated++
					if len(q.j.samples) < 2 {
						q.j.samples = append(q.j.samples, *q.s)
					}
					q.j.mu.Unlock()
				} else if !q.j.Cfg.Real {
					q.j.mu.Lock()
					q.j.mismatch = append(q.j.mismatch, "validation: "+why+" inputs "+inputsString(q.s.Inputs))
					q.j.mu.Unlock()
				}
			}
		}()
	}
	ex.validate = func(j *Job, s *pathSample) {
		select {
		case vq <- vreq{j, s}:
		default:
		}
	}
	ex.Run(*workers)
	close(vq)
	vwg.Wait()
	if ex.initErr != nil {
		fmt.Fprintln(os.Stderr, "symgo:", ex.initErr)
		return
	}
	code = report(ex, *prop, *tier, *verif, seed, start, tLoad, validated, unsupRuns, known, knownHit, *strict, *evid, *verbose)
}

func inputsString(in []inputRec) string {
	var l []string
	for _, i := range in {
		if i.Kind == "choose" {
			l = append(l, "#"+i.Val)
		} else {
			l = append(l, i.Val)
		}
	}
	return "[" + strings.Join(l, " ") + "]"
}

// ---- known findings ---------------------------------------------------------

type knownEntry struct{ key, text string }
type knownList []knownEntry

// Lines "known: property=<id> key=<job>|<message> <description>"; "fixed:" lines suppress nothing.
func loadKnown(path, prop string) knownList {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var l knownList
	for _, s := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(s, "known: property="+prop+" key=") {
			continue
		}
		s = s[len("known: property="+prop+" key="):]
		if s == "" || s[0] != '"' {
			continue
		}
		i := strings.Index(s[1:], "\"")
		if i < 0 {
			continue
		}
		l = append(l, knownEntry{s[1 : 1+i], strings.TrimSpace(s[2+i:])})
	}
	return l
}

func (l knownList) match(v *Violation) string {
	for _, k := range l {
		if v.Job+"|"+v.What+"|"+v.Msg == k.key {
			return k.text
		}
	}
	return ""
}

// ---- report -----------------------------------------------------------------

func report(ex *Explorer, prop, tier, verif string, seed int, start time.Time, tLoad time.Duration, validated, unsupRuns int64,
	known knownList, knownHit map[string]string, strict, evid, verbose bool) int {
	var paths, ok, assumed, unsup, branches, scheds, obl, oblS, steps int64
	var reduced []string
	type jobRep struct {
		Job         string   `json:"job"`
		Bound       string   `json:"bound"`
		Paths       int64    `json:"paths"`
		Complete    int64    `json:"paths_to_the_end"`
		Infeasible  int64    `json:"paths_cut_by_assumptions"`
		Branches    int64    `json:"branch_decisions"`
		Sched       int64    `json:"schedule_decisions,omitempty"`
		Assertions  int64    `json:"assertions_decided"`
		BySolver    int64    `json:"assertions_needing_the_solver"`
		Validated   int64    `json:"paths_replayed_natively"`
		Seconds     float64  `json:"worker_seconds"`
		Exhausted   bool     `json:"exhausted"`
		Covers      []string `json:"witnesses,omitempty"`
		Goroutines  int64    `json:"max_goroutines,omitempty"`
		Unsupported any      `json:"unsupported,omitempty"`
		Unknown     any      `json:"undecided,omitempty"`
		Notes       []string `json:"notes,omitempty"`
		Mismatch    []string `json:"engine_native_mismatch,omitempty"`
	}
	var reps []jobRep
	var samples []any
	incomplete := false
	violated := len(ex.viols) > 0
	for _, j := range ex.jobs {
		paths += j.paths
		ok += j.okPaths
		assumed += j.assumePaths
		unsup += j.unsupPaths
		branches += j.branches
		scheds += j.schedPoints
		obl += j.oblTotal
		oblS += j.oblSolver
		steps += j.steps
		jr := jobRep{Job: j.Name, Bound: j.Bound, Paths: j.paths, Complete: j.okPaths, Infeasible: j.assumePaths, Branches: j.branches,
			Sched: j.schedPoints, Assertions: j.oblTotal, BySolver: j.oblSolver, Validated: j.validated, Seconds: j.spent.Seconds(),
			Exhausted: !j.capped && len(j.unsup) == 0 && len(j.unknowns) == 0 && len(j.stack) == 0 && !violated, Mismatch: j.mismatch, Goroutines: j.maxG}
		for c := range j.covers {
			jr.Covers = append(jr.Covers, c)
		}
		sort.Strings(jr.Covers)
		for c := range j.notes {
			jr.Notes = append(jr.Notes, c)
		}
		if len(j.unsup) > 0 {
			jr.Unsupported = j.unsup
		}
		if len(j.unknowns) > 0 {
			jr.Unknown = j.unknowns
		}
		reps = append(reps, jr)
		if !violated {
			if j.capped {
				reduced = append(reduced, fmt.Sprintf("%s: not all paths explored (%d done)", j.Name, j.paths))
			}
			for m, n := range j.unsup {
				reduced = append(reduced, fmt.Sprintf("%s: %d path(s) outside the encoding: %s", j.Name, n, m))
			}
			for m, n := range j.unknowns {
				reduced = append(reduced, fmt.Sprintf("%s: %d undecided: %s", j.Name, n, m))
			}
			if j.okPaths == 0 && !j.capped {
				reduced = append(reduced, fmt.Sprintf("%s: vacuous (no path reaches the end)", j.Name))
			}
			if j.oblTotal == 0 && !j.capped {
				reduced = append(reduced, fmt.Sprintf("%s: vacuous (no assertion reached)", j.Name))
			}
			for _, m := range j.mismatch {
				reduced = append(reduced, fmt.Sprintf("%s: engine and native run disagree: %s", j.Name, m))
			}
		}
		if len(samples) < 6 {
			for _, s := range j.samples {
				samples = append(samples, map[string]any{"job": j.Name, "inputs": inputsString(s.Inputs), "observed": s.Expect})
				break
			}
		}
		if verbose {
			fmt.Printf("  %-46s paths %6d ok %6d assume %5d br %7d sched %6d obl %7d/%d val %d longest %d %.1fs\n", j.Name, j.paths, j.okPaths, j.assumePaths, j.branches, j.schedPoints, j.oblTotal, j.oblSolver, j.validated, j.longest, j.spent.Seconds())
		}
	}
	incomplete = len(reduced) > 0
	var fns []string
	for n := range ex.P.reachableRepo() {
		fns = append(fns, n)
	}
	sort.Strings(fns)
	st := &ex.stats
	wall := time.Since(start).Seconds()
	if samples == nil {
		samples = []any{"no path of this run was replayed natively"}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": len(ex.viols),
		"assumptions": assumptions,
		"coverage": map[string]any{
			"states": paths, "transitions": branches + scheds, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":       !incomplete && !violated,
			"explanation":      "bounded symbolic execution: 'states' are symbolic paths, 'transitions' are solver-decided branches plus schedule decisions; every assertion on every path is decided by an SMT solver for all values of the symbolic inputs within the bounds listed per job",
			"paths_to_the_end": ok, "paths_cut_by_assumptions": assumed, "paths_outside_encoding": unsup, "native_runs_of_unencodable_paths": unsupRuns,
			"assertions_decided": obl, "assertions_needing_the_solver": oblS, "ssa_instructions_executed": steps,
			"queries": st.Queries, "query_cache_hits": st.CacheHits, "queries_sat": st.SatN, "queries_unsat": st.UnsatN, "queries_unknown": st.UnknownN,
			"solver_fallbacks": st.Fallbacks, "solver_errors": st.Errors, "solver_time_s": float64(st.TimeNs) / 1e9,
			"cross_checked_with_cvc5": st.Cross, "cross_check_disagreements": st.CrossDisagree,
			"functions_encoded": fns, "jobs": reps, "reduced_bound": reduced, "load_s": tLoad.Seconds(),
		},
	}
	if evid {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if len(b) > 500_000 {
			// A large run: one row per job instead of one object, and no indentation.
			cov := ev["coverage"].(map[string]any)
			rows := make([][]any, 0, len(reps))
			for _, j := range reps {
				rows = append(rows, []any{j.Job, j.Bound, j.Paths, j.Complete, j.Assertions, j.BySolver, j.Exhausted})
			}
			cov["job_columns"] = []string{"job", "bound", "paths", "paths_to_the_end", "assertions_decided", "assertions_needing_the_solver", "exhausted"}
			cov["jobs"] = rows
			cov["jobs_listed"], cov["jobs_run"] = len(rows), len(reps)
			b, _ = json.Marshal(ev)
			for n := len(rows) * 3 / 4; len(b) > 700_000 && n > 10; n = n * 3 / 4 {
				cov["jobs"], cov["jobs_listed"] = rows[:n], n
				if len(reduced) > n {
					cov["reduced_bound"], cov["reduced_bound_entries"] = reduced[:n], len(reduced)
				}
				b, _ = json.Marshal(ev)
			}
		}
		os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
	}
	fmt.Printf("%s %s: %d jobs, %d paths (%d to the end, %d cut by assumptions), %d branch + %d schedule decisions, %d assertions (%d by solver), %d queries (+%d cached) %.1fs solver, %d native replays, load %.1fs, wall %.1fs\n",
		prop, tier, len(ex.jobs), paths, ok, assumed, branches, scheds, obl, oblS, st.Queries, st.CacheHits, float64(st.TimeNs)/1e9, validated, tLoad.Seconds(), wall)
	for i, s := range reduced {
		if i >= 20 {
			fmt.Printf("REDUCED-BOUND ... and %d more\n", len(reduced)-i)
			break
		}
		if len(s) > 600 {
			s = s[:600]
		}
		fmt.Println("REDUCED-BOUND", s)
	}
	if st.CrossDisagree > 0 {
		fmt.Println("REDUCED-BOUND solvers disagree on", st.CrossDisagree, "cross-checked queries")
		incomplete = true
	}
	for _, k := range known {
		if _, hit := knownHit[k.text]; hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	if violated {
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		for i, v := range ex.viols {
			if i >= 3 {
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, tier, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("  %s in %s: %s (%s)\n  inputs %s\n  native: %s\n", v.What, v.Job, v.Msg, v.Pos, inputsString(v.Inputs), v.Native)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
		return 1
	}
	if strict && incomplete {
		return 2
	}
	return 0
}

var assumptions = []string{
	"go/ssa (x/tools) translates the repository's source faithfully; the engine's model of SSA instructions, of the Go scheduler (sequentially consistent interleavings at channel, mutex, atomic and select operations; data races reported separately by vector clocks) and of the listed library leaves is faithful; sampled paths are replayed natively on every run",
	"library leaves replaced by models: log.Panic*/fmt formatting (message not modelled), reflect.TypeOf/Elem/Name (type-level), strings.Builder growth, utf8 encoding of symbolic runes, sync primitives, math leaves",
	"64-bit platform (int is 64 bits); memory allocation never fails",
	"the harness' own context models cancellation: Done() starts returning a closed channel from the k-th poll on, k chosen exhaustively within the bound",
	"SMT solvers z3 5.3.2 and cvc5 1.1.2 are sound; a sample of queries is cross-checked between them",
}
