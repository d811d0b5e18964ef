package main

import (
	"fmt"
	"go/token"
	"math/big"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded choice of a path.
type Decision struct {
	k uint8 // 0 branch, 1 choice, 2 value (branch on term == v), 3 schedule
	b bool
	n int32
	v int64
}

type inputRec struct {
	Kind string `json:"k"` // "val" or "choose"
	Typ  string `json:"t"`
	Val  string `json:"v"`
	term *Term
	k    nk
}

type obligation struct {
	t                  *Term
	msg                string
	pos                string
	schedDep           bool
	npc, ninputs, ndec int
}

// Run is the execution of one path.
type Run struct {
	in      *Interp
	job     *Job
	prefix  []Decision
	at      int
	trace   []Decision
	pc      []*Term
	lits    map[*Term]bool
	model   Model
	globals map[*ssa.Global]*value
	dc      *deepCopier
	pend    []pendingPath

	inputs   []inputRec
	obls     []obligation
	obs      []string
	obsTerms [][]obsVal
	covers   map[string]bool
	notes    map[string]bool
	nvar     int

	steps, maxSteps int64
	stop            *atomic.Bool
	initPhase       bool
	noLeaks         bool

	// scheduler
	gs       []*goroutine
	cur      *goroutine
	preempts int
	wg       sync.WaitGroup
	done     chan struct{}
	killed   bool
	outcome  outcome
	outOnce  sync.Once
	nchan    int
	mutexes  map[*value]*mutexSt
	wgs      map[*value]*wgSt
	onces    map[*value]*onceSt
	raceOn   bool
	nofork   bool // speculative execution of a branch arm
	nmerge   int64
	stamp    int64
	shadow   map[any]*shadowCell
	atomVC   map[*value]vclock
	nsched   int64
	nbranch  int64
	schedLog []string
}

type obsVal struct {
	s string
	t *Term
	k nk
}

type outcome struct {
	kind     string // ok, assume, unsupported, violation, stopped
	what     string // violation kind
	msg      string
	pos      string
	schedDep bool
}

type pendingPath struct {
	prefix []Decision
	model  Model // nil when feasibility is not established
}

func (r *Run) note(s string) { r.notes[s] = true }

func (r *Run) nextChan() int { r.nchan++; return r.nchan }

// fail aborts the path with a violation candidate.
func (r *Run) fail(what, msg string, _ bool) {
	r.outcome = outcome{kind: "violation", what: what, msg: msg, schedDep: len(r.gs) > 1}
	panic(violationStop{})
}

func clip(tr []Decision) []Decision { return tr[:len(tr):len(tr)] }

func (r *Run) addPC(lit *Term) {
	if lit.isTrue() {
		return
	}
	r.lits[lit] = true
	r.lits[r.in.tt.Not(lit)] = false
	r.pc = append(r.pc, lit)
}

// imply records a literal the path condition already implies.
func (r *Run) imply(lit *Term) {
	r.lits[lit] = true
	r.lits[r.in.tt.Not(lit)] = false
}

// slice returns the conjuncts of the path condition sharing variables (transitively) with t.
func (r *Run) slice(t *Term) []*Term {
	vs := t.vars
	used := make([]bool, len(r.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range r.pc {
			if used[i] || !c.vars.intersects(vs) {
				continue
			}
			used[i] = true
			changed = true
			vs = vs.or(c.vars)
			out = append(out, c)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].hash < out[j].hash })
	return out
}

// sat decides path condition AND t. The model extends the current one.
func (r *Run) sat(t *Term) (Result, Model) {
	var cs []*Term
	if r.model == nil {
		cs = append(append([]*Term(nil), r.pc...), t)
		sort.Slice(cs, func(i, j int) bool { return cs[i].hash < cs[j].hash })
	} else {
		cs = append(r.slice(t), t)
	}
	res, m := r.in.sol.Check(r.in.tt, cs)
	if res != Sat {
		return res, nil
	}
	if m == nil {
		return Sat, nil
	}
	nm := Model{}
	for k, v := range r.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return Sat, nm
}

func (r *Run) branchv(v value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return r.branch(v.(*Term))
}

func (r *Run) branch(cond *Term) bool { return r.branchD(cond, 0, 0) }

// decided says whether the path condition fixes cond syntactically.
func (r *Run) decided(cond *Term) bool {
	if cond.isConst() {
		return true
	}
	_, ok := r.lits[cond]
	return ok
}

func (r *Run) branchD(cond *Term, kind uint8, val int64) bool {
	if cond.isConst() {
		return cond.cv.(bool)
	}
	if b, ok := r.lits[cond]; ok {
		return b
	}
	if r.nofork {
		panic(specAbort{})
	}
	tt := r.in.tt
	neg := tt.Not(cond)
	if r.at < len(r.prefix) {
		d := r.prefix[r.at]
		r.at++
		if d.k != 0 && d.k != 2 {
			panic(unsupported{"internal: replay diverged (branch)"})
		}
		r.trace = append(r.trace, d)
		lit := cond
		if !d.b {
			lit = neg
		}
		if d.n == 1 {
			r.imply(lit)
		} else {
			r.addPC(lit)
		}
		return d.b
	}
	r.nbranch++
	var dir bool
	known := false
	if r.model != nil {
		if v, ok := eval(cond, r.model); ok {
			dir, known = v.(bool), true
		}
	}
	if !known {
		res, m := r.sat(cond)
		switch {
		case res == Sat:
			dir, known = true, true
			if m != nil {
				r.model = m
			}
		case res == Unsat:
			// then the negation holds (if the path is feasible at all)
			dir, known = false, true
			r.trace = append(r.trace, Decision{k: kind, b: false, n: 1, v: val})
			r.imply(neg)
			return false
		default:
			r.job.unknown("branch")
			dir = true
			r.model = nil
		}
	}
	lit, other := cond, neg
	if !dir {
		lit, other = neg, cond
	}
	res, m := r.sat(other)
	if res == Unsat {
		r.trace = append(r.trace, Decision{k: kind, b: dir, n: 1, v: val})
		r.imply(lit)
		return dir
	}
	if res == Unknown {
		r.job.unknown("branch")
	}
	alt := append(append([]Decision(nil), r.trace...), Decision{k: kind, b: !dir, v: val})
	r.pend = append(r.pend, pendingPath{alt, m})
	r.trace = append(r.trace, Decision{k: kind, b: dir, v: val})
	r.addPC(lit)
	return dir
}

// concretize forks over the feasible values of t.
func (r *Run) concretize(t *Term, k nk) int64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return norm(int64(t.cv.(uint64)), k)
		}
		if r.nofork {
			panic(specAbort{})
		}
		if n > 4096 {
			panic(unsupported{"too many values to concretise"})
		}
		// every iteration records exactly one decision, so that a replay of the prefix consumes the same ones
		tt := r.in.tt
		if r.at < len(r.prefix) {
			d := r.prefix[r.at]
			if d.k != 2 {
				panic(unsupported{"internal: replay diverged (value)"})
			}
			r.at++
			r.trace = append(r.trace, d)
			c := tt.Eq(t, tt.BV(k.w, uint64(d.v)))
			lit := c
			if !d.b {
				lit = tt.Not(c)
			}
			if d.n == 1 {
				r.imply(lit)
			} else {
				r.addPC(lit)
			}
			if d.b {
				return norm(d.v, k)
			}
			continue
		}
		var u uint64
		ok := false
		if r.model != nil {
			if v, o := eval(t, r.model); o {
				u, ok = v.(uint64), true
			}
		}
		if !ok {
			res, m := r.sat(tt.tTrue)
			if res != Sat || m == nil {
				panic(unsupported{"no model for concretisation"})
			}
			r.model = m
			v, o := eval(t, m)
			if !o {
				panic(unsupported{"no model for concretisation"})
			}
			u = v.(uint64)
		}
		c := tt.Eq(t, tt.BV(k.w, u))
		known, isKnown := c.isTrue(), c.isConst()
		if !isKnown {
			known, isKnown = r.lits[c]
		}
		if isKnown {
			if !known {
				panic(unsupported{"internal: concretise"})
			}
			r.trace = append(r.trace, Decision{k: 2, b: true, n: 1, v: int64(u)})
			return norm(int64(u), k)
		}
		if r.branchD(c, 2, int64(u)) {
			return norm(int64(u), k)
		}
	}
}

// choice is an n-way decision not made by the solver.
func (r *Run) choice(n int, kind uint8) int {
	if n <= 1 {
		return 0
	}
	if r.at < len(r.prefix) {
		d := r.prefix[r.at]
		r.at++
		if d.k != kind || int(d.n) != n {
			panic(unsupported{fmt.Sprintf("internal: replay diverged (choice %d/%d vs %d/%d)", d.k, d.n, kind, n)})
		}
		r.trace = append(r.trace, d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		alt := append(append([]Decision(nil), r.trace...), Decision{k: kind, n: int32(n), v: int64(i)})
		r.pend = append(r.pend, pendingPath{alt, r.model})
	}
	r.trace = append(r.trace, Decision{k: kind, n: int32(n), v: 0})
	return 0
}

func (r *Run) assume(v value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathEnd{"assume"})
		}
	case *Term:
		if b, ok := r.lits[c]; ok {
			if !b {
				panic(pathEnd{"assume"})
			}
			return
		}
		if r.at < len(r.prefix) {
			// feasibility of the prefix is already established
			r.addPC(c)
			return
		}
		if r.model != nil {
			if b, ok := eval(c, r.model); ok && b.(bool) {
				r.addPC(c)
				return
			}
		}
		res, m := r.sat(c)
		switch res {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			r.job.unknown("assume")
			r.model = nil
		default:
			r.model = m
		}
		r.addPC(c)
	}
}

func (r *Run) assert(v value, msg, pos string) {
	switch c := v.(type) {
	case bool:
		if !c {
			r.outcome = outcome{kind: "violation", what: "assert", msg: msg, pos: pos, schedDep: len(r.gs) > 1}
			panic(violationStop{})
		}
		r.obligation(r.in.tt.tTrue, msg, pos)
	case *Term:
		r.obligation(c, msg, pos)
	}
}

// obligation records an assertion; it is decided when the path is over. Assertions met while the prefix is
// still being replayed were recorded by the path that forked this one.
func (r *Run) obligation(t *Term, msg, pos string) {
	if r.at < len(r.prefix) {
		return
	}
	if b, ok := r.lits[t]; ok && b {
		t = r.in.tt.tTrue
	}
	r.obls = append(r.obls, obligation{t: t, msg: msg, pos: pos, schedDep: len(r.gs) > 1, npc: len(r.pc), ninputs: len(r.inputs), ndec: len(r.trace)})
}

// ---- driving one path ------------------------------------------------------

type goroutine struct {
	r     *Run
	id    int
	wake  chan struct{}
	op    *visOp
	dead  bool
	depth int
	vc    vclock
	name  string
}

// visOp is the visible operation a parked goroutine waits to perform.
type visOp struct {
	enabled   func() bool
	sends     []offer // pending sends a receiver may take
	recvs     []offer // pending receives a polling sender may serve
	completed bool
	local     bool // only local work follows
	caseIdx   int
	val       value
	ok        bool
	what      string
}

type offer struct {
	ch   *chanv
	val  value
	cidx int
}

func (in *Interp) newRun(job *Job, pp pendingPath) *Run {
	r := &Run{in: in, job: job, prefix: pp.prefix, model: pp.model, lits: map[*Term]bool{},
		globals: map[*ssa.Global]*value{}, dc: newDeepCopier(), covers: map[string]bool{}, notes: map[string]bool{},
		maxSteps: job.maxSteps(), stop: &job.stop, done: make(chan struct{}), preempts: job.Cfg.Preempt,
		mutexes: map[*value]*mutexSt{}, wgs: map[*value]*wgSt{}, onces: map[*value]*onceSt{},
		shadow: map[any]*shadowCell{}, atomVC: map[*value]vclock{}}
	if r.model == nil && len(pp.prefix) == 0 {
		r.model = Model{}
	}
	in.real = job.Cfg.Real
	in.run = r
	return r
}

// execute runs fn(args) as the main goroutine and returns when the path is over.
func (r *Run) execute(fn value, args []value) {
	g := &goroutine{r: r, id: 0, wake: make(chan struct{}, 1), vc: vclock{1}}
	r.gs = append(r.gs, g)
	r.cur = g
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		defer r.top(g)
		r.in.call(g, nil, fn, args)
		r.drain(g)
	}()
	<-r.done
	r.killed = true
	for _, g := range r.gs {
		select {
		case g.wake <- struct{}{}:
		default:
		}
	}
	r.wg.Wait()
}

func (r *Run) finish(o outcome) {
	r.outOnce.Do(func() {
		r.outcome = o
		close(r.done)
	})
}

// top is the deferred handler of every goroutine.
func (r *Run) top(g *goroutine) {
	p := recover()
	if r.killed {
		return
	}
	switch x := p.(type) {
	case nil:
		return // finish was called by drain / exit
	case pathEnd:
		if x.why == "killed" {
			return
		}
		k := "assume"
		if x.why == "stopped" {
			k = "stopped"
		}
		r.finish(outcome{kind: k})
	case violationStop:
		r.finish(r.outcome)
	case unsupported:
		r.finish(outcome{kind: "unsupported", msg: x.msg})
	case targetPanic:
		r.finish(outcome{kind: "violation", what: "panic", msg: "unexpected panic: " + r.panicString(x.v), schedDep: len(r.gs) > 1})
	default:
		r.finish(outcome{kind: "unsupported", msg: fmt.Sprintf("internal error: %v\n%s", p, trimStack(debug.Stack()))})
	}
}

func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	var out []string
	for i, s := range l {
		if strings.Contains(s, "/verif/engine") || strings.Contains(s, "engine/") {
			out = append(out, strings.TrimSpace(s))
		}
		_ = i
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, " | ")
}

func (r *Run) panicString(v value) string {
	if i, ok := v.(iface); ok {
		switch x := i.v.(type) {
		case string:
			return x
		case int64, bool, float64:
			return fmt.Sprint(x)
		case *value:
			if x != nil {
				if s, ok := (*x).(structv); ok && len(s) > 0 {
					if m, ok := s[0].(string); ok {
						return m
					}
				}
			}
		}
		if i.t != nil {
			return i.t.String()
		}
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

// drain is reached when the main goroutine is done: the others run until they finish or block for ever.
func (r *Run) drain(g *goroutine) {
	g.dead = true
	n := r.pick(nil)
	if n != nil {
		r.cur = n
		n.wake <- struct{}{}
		return
	}
	r.over()
}

// over ends the path after all goroutines have finished or are blocked.
func (r *Run) over() {
	if r.gs[0].dead {
		var left []string
		for _, g := range r.gs {
			if !g.dead {
				w := ""
				if g.op != nil {
					w = g.op.what
				}
				left = append(left, fmt.Sprintf("goroutine %d (%s) blocked at %s", g.id, g.name, w))
			}
		}
		if len(left) > 0 && r.noLeaks {
			r.finish(outcome{kind: "violation", what: "goroutine-leak", msg: strings.Join(left, "; "), schedDep: true})
			return
		}
		r.finish(outcome{kind: "ok"})
		return
	}
	var left []string
	for _, g := range r.gs {
		if !g.dead {
			w := "?"
			if g.op != nil {
				w = g.op.what
			}
			left = append(left, fmt.Sprintf("goroutine %d (%s) blocked at %s", g.id, g.name, w))
		}
	}
	r.finish(outcome{kind: "violation", what: "deadlock", msg: strings.Join(left, "; "), schedDep: len(r.gs) > 1})
}

// pick chooses the next goroutine among the enabled ones (self first).
func (r *Run) pick(self *goroutine) *goroutine {
	var en []*goroutine
	if self != nil && !self.dead && self.op != nil && (self.op.completed || self.op.enabled()) {
		en = append(en, self)
	}
	for _, g := range r.gs {
		if g != self && !g.dead && g.op != nil && (g.op.completed || g.op.enabled()) {
			en = append(en, g)
		}
	}
	if len(en) == 0 {
		return nil
	}
	if len(en) == 1 {
		return en[0]
	}
	// A goroutine that has only local work before its next visible operation runs there first: for programs
	// without data races this commutes with everything the others do.
	for _, g := range en {
		if g.op.completed || g.op.local {
			return g
		}
	}
	i := r.schedChoice(len(en))
	return en[i]
}

// schedChoice is an n-way scheduling decision; option 0 is the default. Cfg.Preempt >= 0 bounds the number of
// decisions that differ from the default along a path.
func (r *Run) schedChoice(n int) int {
	if n <= 1 {
		return 0
	}
	if r.job.Cfg.Preempt >= 0 && r.preempts <= 0 {
		return 0
	}
	r.nsched++
	i := r.choice(n, 3)
	if i != 0 {
		r.preempts--
	}
	return i
}

// point parks g at a visible operation until the scheduler chooses it.
func (g *goroutine) point(op *visOp) {
	r := g.r
	if r.killed {
		panic(pathEnd{"killed"})
	}
	g.op = op
	if len(r.gs) == 1 {
		if !op.enabled() {
			r.over()
			panic(pathEnd{"killed"})
		}
		g.op = nil
		return
	}
	r.steps++
	if r.steps > r.maxSteps {
		r.fail("non-termination", fmt.Sprintf("more than %d steps", r.maxSteps), true)
	}
	n := r.pick(g)
	if n == nil {
		r.over()
		panic(pathEnd{"killed"})
	}
	if n != g {
		r.cur = n
		r.logSwitch(g, n)
		n.wake <- struct{}{}
		<-g.wake
		if r.killed {
			panic(pathEnd{"killed"})
		}
	}
	g.op = nil
}

func (r *Run) logSwitch(g, n *goroutine) {
	if len(r.schedLog) < 400 {
		a, b := "", ""
		if g.op != nil {
			a = g.op.what
		}
		if n.op != nil {
			b = n.op.what
		}
		r.schedLog = append(r.schedLog, fmt.Sprintf("g%d at %s -> g%d at %s", g.id, a, n.id, b))
	}
}

func (r *Run) spawn(parent *goroutine, fr *frame, fn value, args []value) {
	g := &goroutine{r: r, id: len(r.gs), wake: make(chan struct{}, 1)}
	switch f := fn.(type) {
	case *ssa.Function:
		g.name = f.String()
	case *closure:
		g.name = f.fn.String()
	}
	if len(r.gs) >= 512 {
		panic(unsupported{"more than 512 goroutines"})
	}
	g.vc = parent.vc.copy()
	g.vc.tick(g.id)
	parent.vc.tick(parent.id)
	g.op = &visOp{enabled: func() bool { return true }, what: "start", local: true}
	r.gs = append(r.gs, g)
	if r.job.Cfg.Race {
		r.raceOn = true
	}
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		defer r.top(g)
		<-g.wake
		if r.killed {
			return
		}
		g.op = nil
		r.in.call(g, nil, fn, args)
		// end of goroutine: hand over the baton
		g.dead = true
		n := r.pick(nil)
		if n == nil {
			r.over()
			return
		}
		r.cur = n
		n.wake <- struct{}{}
	}()
}

// posOf renders a position relative to the repository.
func (in *Interp) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := in.P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (in *Interp) realConst(i int64) *Term { return in.tt.Const(realSort, big.NewRat(i, 1)) }

// ---- deep copy of initial package state -------------------------------------

type deepCopier struct {
	ptrs   map[*value]*value
	slices map[*value][]value
	maps   map[*mapv]*mapv
	chans  map[*chanv]*chanv
	clos   map[*closure]*closure
}

func newDeepCopier() *deepCopier {
	return &deepCopier{map[*value]*value{}, map[*value][]value{}, map[*mapv]*mapv{}, map[*chanv]*chanv{}, map[*closure]*closure{}}
}

func (d *deepCopier) ptr(p *value) *value {
	if p == nil {
		return nil
	}
	if q, ok := d.ptrs[p]; ok {
		return q
	}
	q := new(value)
	d.ptrs[p] = q
	d.fill(q, p)
	return q
}

// fill copies *p into *q registering the component addresses.
func (d *deepCopier) fill(q, p *value) {
	switch x := (*p).(type) {
	case structv:
		n := make(structv, len(x))
		*q = n
		for i := range x {
			d.ptrs[&x[i]] = &n[i]
			d.fill(&n[i], &x[i])
		}
	case arrayv:
		n := make(arrayv, len(x))
		*q = n
		for i := range x {
			d.ptrs[&x[i]] = &n[i]
			d.fill(&n[i], &x[i])
		}
	default:
		*q = d.val(*p)
	}
}

func (d *deepCopier) val(v value) value {
	switch x := v.(type) {
	case *value:
		return d.ptr(x)
	case []value:
		if x == nil {
			return x
		}
		if cap(x) == 0 {
			return []value{}
		}
		full := x[:cap(x)]
		k := &full[0]
		if n, ok := d.slices[k]; ok && cap(n) >= cap(x) {
			return n[:len(x):cap(x)]
		}
		n := make([]value, cap(x))
		d.slices[k] = n
		for i := range full {
			d.ptrs[&full[i]] = &n[i]
			d.fill(&n[i], &full[i])
		}
		return n[:len(x)]
	case structv:
		n := make(structv, len(x))
		for i := range x {
			n[i] = d.val(x[i])
		}
		return n
	case arrayv:
		n := make(arrayv, len(x))
		for i := range x {
			n[i] = d.val(x[i])
		}
		return n
	case iface:
		return iface{x.t, d.val(x.v)}
	case *closure:
		if x == nil {
			return x
		}
		if n, ok := d.clos[x]; ok {
			return n
		}
		n := &closure{fn: x.fn}
		d.clos[x] = n
		for _, e := range x.env {
			n.env = append(n.env, d.val(e))
		}
		return n
	case *mapv:
		if x == nil {
			return x
		}
		if n, ok := d.maps[x]; ok {
			return n
		}
		n := x.clone(d.val)
		d.maps[x] = n
		return n
	case *chanv:
		if x == nil {
			return x
		}
		if n, ok := d.chans[x]; ok {
			return n
		}
		n := &chanv{cap: x.cap, id: x.id, closed: x.closed}
		d.chans[x] = n
		for _, b := range x.buf {
			n.buf = append(n.buf, chanElem{v: d.val(b.v)})
		}
		return n
	}
	return v
}
