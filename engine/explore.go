package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// JobCfg holds the configuration fields the engine itself interprets.
type JobCfg struct {
	Real    bool
	Race    bool
	Preempt int
}

// Job is one harness instance: a harness function with concrete shape parameters.
type Job struct {
	Name     string          `json:"name"`
	Fn       string          `json:"fn"`
	Bound    string          `json:"bound"`
	RawCfg   json.RawMessage `json:"cfg"`
	MaxSteps int64           `json:"maxSteps"`
	MaxPaths int64           `json:"maxPaths"`
	Cfg      JobCfg          `json:"-"`

	stop  atomic.Bool
	entry *ssa.Function

	// under explorer.mu
	stack    []pendingPath
	inflight int
	spent    time.Duration

	paths, okPaths, assumePaths, unsupPaths int64
	branches, schedPoints, steps            int64
	oblTotal, oblSolver                     int64
	maxG, longest                           int64
	mu                                      sync.Mutex
	unsup                                   map[string]int
	unknowns                                map[string]int
	notes                                   map[string]bool
	covers                                  map[string]bool
	mismatch                                []string
	capped                                  bool
	samples                                 []pathSample
	validated                               int64
	nsampled                                int64
	failed                                  bool
}

func (j *Job) maxSteps() int64 {
	if j.MaxSteps > 0 {
		return j.MaxSteps
	}
	return 8000000
}

func (j *Job) unknown(where string) {
	j.mu.Lock()
	if j.unknowns == nil {
		j.unknowns = map[string]int{}
	}
	j.unknowns[where]++
	j.mu.Unlock()
}

// pathSample is a completed path to be replayed natively.
type pathSample struct {
	Inputs  []inputRec
	Expect  [][]string
	Sched   bool
	Outcome string
}

// Violation is a candidate counterexample.
type Violation struct {
	Property string     `json:"property"`
	Job      string     `json:"job"`
	Fn       string     `json:"fn"`
	Cfg      any        `json:"cfg"`
	What     string     `json:"what"`
	Msg      string     `json:"msg"`
	Pos      string     `json:"pos"`
	Inputs   []inputRec `json:"inputs"`
	Schedule []string   `json:"schedule,omitempty"`
	SchedDep bool       `json:"schedule_dependent"`
	Real     bool       `json:"exact_arithmetic"`
	Tight    bool       `json:"tight,omitempty"`
	Race     bool       `json:"race"`
	Native   string     `json:"native_replay"`
	Trace    []string   `json:"decisions,omitempty"`
	job      *Job
	decs     []Decision
}

type Explorer struct {
	P        *Program
	jobs     []*Job
	deadline time.Time
	mu       sync.Mutex
	cond     *sync.Cond
	stopAll  atomic.Bool
	inflight int
	stats    SolverStats
	cache    *SharedCache
	softMS   int
	hardS    int
	crossN   int64
	crossMax int64
	confirm  func(v *Violation) bool // native replay; true if it is to be reported
	validate func(job *Job, s *pathSample)
	viols    []*Violation
	nSamples int
	timedOut bool
	initErr  error
}

func (e *Explorer) next() (*Job, pendingPath, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopAll.Load() {
			return nil, pendingPath{}, false
		}
		if time.Now().After(e.deadline) {
			left := false
			for _, j := range e.jobs {
				if len(j.stack) > 0 {
					j.capped = true
					left = true
				}
			}
			if left {
				e.timedOut = true
			}
			for _, j := range e.jobs {
				j.stop.Store(true)
			}
			e.cond.Broadcast()
			return nil, pendingPath{}, false
		}
		var best *Job
		for _, j := range e.jobs {
			if len(j.stack) == 0 || j.stop.Load() {
				continue
			}
			if best == nil || j.spent < best.spent {
				best = j
			}
		}
		if best != nil {
			n := len(best.stack) - 1
			pp := best.stack[n]
			best.stack[n] = pendingPath{}
			best.stack = best.stack[:n]
			best.inflight++
			e.inflight++
			return best, pp, true
		}
		if e.inflight == 0 {
			e.cond.Broadcast()
			return nil, pendingPath{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) finish(j *Job, pend []pendingPath, d time.Duration) {
	e.mu.Lock()
	j.inflight--
	e.inflight--
	j.spent += d
	if !j.stop.Load() {
		j.stack = append(j.stack, pend...)
		if j.MaxPaths > 0 && j.paths >= j.MaxPaths && len(j.stack) > 0 {
			j.capped = true
			j.stack = nil
		}
	}
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (e *Explorer) Run(workers int) {
	e.cond = sync.NewCond(&e.mu)
	for _, j := range e.jobs {
		j.stack = []pendingPath{{}}
		j.unsup = map[string]int{}
		j.notes = map[string]bool{}
		j.covers = map[string]bool{}
	}
	go func() {
		for range time.Tick(time.Second) {
			if time.Now().After(e.deadline) {
				e.mu.Lock()
				e.timedOut = e.timedOut || e.inflight > 0
				for _, j := range e.jobs {
					if j.inflight > 0 || len(j.stack) > 0 {
						j.capped = true
					}
					j.stop.Store(true)
				}
				e.cond.Broadcast()
				e.mu.Unlock()
				return
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
}

func (e *Explorer) worker() {
	in := &Interp{P: e.P, tt: NewTermTable(), sol: NewSolver(&e.stats, e.cache, e.softMS, e.hardS)}
	defer in.sol.Close()
	if err := in.initPackages(); err != nil {
		e.mu.Lock()
		e.initErr = err
		e.mu.Unlock()
		e.stopAll.Store(true)
		e.cond.Broadcast()
		return
	}
	for {
		job, pp, ok := e.next()
		if !ok {
			return
		}
		if in.tt.size() > 400000 {
			in.tt = NewTermTable()
		}
		t0 := time.Now()
		pend := e.path(in, job, pp)
		e.finish(job, pend, time.Since(t0))
	}
}

func (e *Explorer) path(in *Interp, job *Job, pp pendingPath) []pendingPath {
	cfg, err := in.cfgValue(job)
	if err != nil {
		job.mu.Lock()
		job.unsup["configuration: "+err.Error()]++
		job.mu.Unlock()
		return nil
	}
	r := in.newRun(job, pp)
	r.execute(job.entry, []value{cfg})
	atomic.AddInt64(&job.paths, 1)
	atomic.AddInt64(&job.branches, r.nbranch)
	atomic.AddInt64(&job.schedPoints, r.nsched)
	atomic.AddInt64(&job.steps, r.steps)
	for {
		old := atomic.LoadInt64(&job.longest)
		if r.steps <= old || atomic.CompareAndSwapInt64(&job.longest, old, r.steps) {
			break
		}
	}
	job.mu.Lock()
	for n := range r.notes {
		job.notes[n] = true
	}
	if n := int64(len(r.gs)); n > job.maxG {
		job.maxG = n
	}
	job.mu.Unlock()
	if r.outcome.kind == "stopped" {
		return r.pend
	}

	// obligations
	for _, o := range r.obls {
		if job.stop.Load() {
			break
		}
		atomic.AddInt64(&job.oblTotal, 1)
		if o.t.isTrue() {
			continue
		}
		atomic.AddInt64(&job.oblSolver, 1)
		if r.model != nil {
			// the path's own model may already break the assertion
			if v, ok := eval(o.t, r.model); ok && v.(bool) == false {
				e.candidate(r, job, r.model, outcome{kind: "violation", what: "assert", msg: o.msg, pos: o.pos, schedDep: o.schedDep}, o.ninputs, o.ndec)
				continue
			}
		}
		neg := in.tt.Not(o.t)
		res, m, cs := r.satAt(o.npc, neg)
		if !in.sol.cached && res != Unknown {
			if n := atomic.AddInt64(&e.stats.CrossSeen, 1); n%e.crossN == 1 && atomic.LoadInt64(&e.stats.Cross) < e.crossMax {
				in.sol.CrossCheck(in.tt, cs, res)
			}
		}
		switch res {
		case Unsat:
		case Unknown:
			job.unknown("assertion " + o.msg)
		default:
			if m == nil {
				job.unknown("model of " + o.msg)
				break
			}
			if in.real {
				m = r.nicer(o.npc, neg, m)
			}
			e.candidate(r, job, m, outcome{kind: "violation", what: "assert", msg: o.msg, pos: o.pos, schedDep: o.schedDep}, o.ninputs, o.ndec)
		}
	}
	switch r.outcome.kind {
	case "ok":
		atomic.AddInt64(&job.okPaths, 1)
		job.mu.Lock()
		for c := range r.covers {
			job.covers[c] = true
		}
		job.mu.Unlock()
		e.sample(r, job)
	case "assume":
		atomic.AddInt64(&job.assumePaths, 1)
	case "unsupported":
		atomic.AddInt64(&job.unsupPaths, 1)
		job.mu.Lock()
		job.unsup[r.outcome.msg]++
		n := job.unsup[r.outcome.msg]
		job.mu.Unlock()
		if n <= 8 && r.model != nil && e.validate != nil {
			// outside what can be encoded: run the path's concrete representative natively
			s := &pathSample{Inputs: r.concreteInputs(r.model, len(r.inputs)), Outcome: "unsupported"}
			e.validate(job, s)
		}
	case "violation":
		m := r.model
		if m == nil {
			res, mm := r.sat(in.tt.tTrue)
			if res == Unsat {
				break
			}
			if res != Sat || mm == nil {
				job.unknown("feasibility of a failing path: " + r.outcome.msg)
				break
			}
			m = mm
		}
		if in.real {
			m = r.nicer(len(r.pc), in.tt.tTrue, m)
		}
		e.candidate(r, job, m, r.outcome, len(r.inputs), len(r.trace))
	}
	return r.pend
}

// satAt decides (first npc conjuncts of the path condition) AND t.
func (r *Run) satAt(npc int, t *Term) (Result, Model, []*Term) {
	full := r.pc
	r.pc = full[:npc]
	defer func() { r.pc = full }()
	var cs []*Term
	if r.model == nil {
		cs = append(append([]*Term(nil), r.pc...), t)
		sort.Slice(cs, func(i, j int) bool { return cs[i].hash < cs[j].hash })
	} else {
		cs = append(r.slice(t), t)
	}
	res, m := r.in.sol.Check(r.in.tt, cs)
	if res != Sat || m == nil {
		return res, nil, cs
	}
	nm := Model{}
	for k, v := range r.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return Sat, nm, cs
}

// nicer looks for a model with small integers (exact-arithmetic counterexamples are replayed in float64).
func (r *Run) nicer(npc int, t *Term, m Model) Model {
	tt := r.in.tt
	for _, lim := range []int64{2, 4, 9} {
		cs := append(append([]*Term(nil), r.pc[:npc]...), t)
		for _, in := range r.inputs {
			if in.term == nil || in.term.sort.K != SReal {
				continue
			}
			d := tt.tFalse
			for k := -lim; k <= lim; k++ {
				d = tt.Or(d, tt.Eq(in.term, r.in.realConst(k)))
			}
			cs = append(cs, d)
		}
		if res, mm := r.in.sol.Check(tt, cs); res == Sat && mm != nil {
			return mm
		}
	}
	return m
}

func (r *Run) concreteInputs(m Model, n int) []inputRec {
	var out []inputRec
	for _, in := range r.inputs[:n] {
		c := inputRec{Kind: in.Kind, Typ: in.Typ, Val: in.Val}
		if in.term != nil {
			c.Val = showModelVal(in.term, m, in.k)
		}
		out = append(out, c)
	}
	return out
}

func showModelVal(t *Term, m Model, k nk) string {
	v, ok := eval(t, m)
	if !ok {
		return "?"
	}
	switch x := v.(type) {
	case uint64:
		return showVal(norm(int64(x), k), k)
	case *big.Rat:
		f, _ := x.Float64()
		return showVal(f, nk{cFloat, 64})
	case float64:
		if x != x {
			return "NaN"
		}
		return fmt.Sprintf("%x", x)
	}
	return fmt.Sprint(v)
}

func (e *Explorer) sample(r *Run, job *Job) {
	if e.validate == nil || r.model == nil {
		return
	}
	// 1st, 2nd, 4th, 8th ... completed path
	n := atomic.LoadInt64(&job.okPaths)
	if n&(n-1) != 0 || int(atomic.AddInt64(&job.nsampled, 1)) > e.nSamples {
		return
	}
	s := &pathSample{Inputs: r.concreteInputs(r.model, len(r.inputs)), Outcome: "ok", Sched: len(r.gs) > 1}
	for _, vs := range r.obsTerms {
		var l []string
		for _, v := range vs {
			if v.t != nil {
				if r.in.real {
					x, ok := eval(v.t, r.model)
					if rt, is := x.(*big.Rat); ok && is {
						f, _ := rt.Float64()
						l = append(l, showVal(f, nk{cFloat, 64}))
						continue
					}
				}
				x, ok := eval(v.t, r.model)
				if !ok {
					l = append(l, "?")
					continue
				}
				if u, is := x.(uint64); is {
					x = norm(int64(u), v.k)
				}
				l = append(l, showVal(x, v.k))
			} else {
				l = append(l, v.s)
			}
		}
		s.Expect = append(s.Expect, l)
	}
	e.validate(job, s)
}

func (e *Explorer) candidate(r *Run, job *Job, m Model, o outcome, ninputs, ndec int) {
	v := &Violation{Job: job.Name, Fn: job.Fn, What: o.what, Msg: o.msg, Pos: o.pos, SchedDep: o.schedDep,
		Inputs: r.concreteInputs(m, ninputs), Real: job.Cfg.Real, Tight: job.Cfg.Real, Race: o.what == "data-race", job: job, decs: clip(r.trace)}
	v.Schedule = r.schedLog
	var cfg any
	json.Unmarshal(job.RawCfg, &cfg)
	v.Cfg = cfg
	for _, d := range r.trace {
		if d.k == 1 || d.k == 3 {
			v.Trace = append(v.Trace, fmt.Sprintf("%d:%d/%d", d.k, d.v, d.n))
		}
	}
	if job.stop.Load() {
		return
	}
	if e.confirm(v) {
		e.mu.Lock()
		e.viols = append(e.viols, v)
		e.mu.Unlock()
		job.failed = true
		e.stopAll.Store(true)
		for _, j := range e.jobs {
			j.stop.Store(true)
		}
		e.mu.Lock()
		e.cond.Broadcast()
		e.mu.Unlock()
	} else {
		job.mu.Lock()
		n := len(job.mismatch)
		job.mu.Unlock()
		if n >= 10 {
			job.stop.Store(true)
		}
	}
}

// cfgValue builds the harness configuration argument from its JSON form.
func (in *Interp) cfgValue(job *Job) (value, error) {
	t := job.entry.Signature.Params().At(0).Type()
	var raw any
	if err := json.Unmarshal(job.RawCfg, &raw); err != nil {
		return nil, err
	}
	return jsonValue(raw, t)
}

func jsonValue(x any, t types.Type) (value, error) {
	if x == nil {
		return zero(t), nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		m, ok := x.(map[string]any)
		if !ok {
			return nil, fmt.Errorf("object expected for %s", t)
		}
		s := zero(t).(structv)
		for i := 0; i < u.NumFields(); i++ {
			for k, v := range m {
				if strings.EqualFold(k, u.Field(i).Name()) {
					y, err := jsonValue(v, u.Field(i).Type())
					if err != nil {
						return nil, err
					}
					s[i] = y
				}
			}
		}
		return s, nil
	case *types.Pointer:
		y, err := jsonValue(x, u.Elem())
		if err != nil {
			return nil, err
		}
		p := new(value)
		*p = y
		return p, nil
	case *types.Slice:
		l, ok := x.([]any)
		if !ok {
			return nil, fmt.Errorf("array expected for %s", t)
		}
		r := make([]value, len(l))
		for i := range l {
			y, err := jsonValue(l[i], u.Elem())
			if err != nil {
				return nil, err
			}
			r[i] = y
		}
		return r, nil
	case *types.Basic:
		switch v := x.(type) {
		case string:
			return v, nil
		case bool:
			return v, nil
		case float64:
			return int64(v), nil
		}
	}
	return nil, fmt.Errorf("cannot build %s from %T", t, x)
}

func dbg(f string, a ...any) {
	if os.Getenv("SYMGO_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
