package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// proc is one solver process driven over pipes.
type proc struct {
	name string
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	n    int
}

func (p *proc) start() error {
	p.cmd = exec.Command(p.name, p.args...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	p.cmd.Stderr = nil
	if err := p.cmd.Start(); err != nil {
		return err
	}
	p.in, p.out, p.n = in, bufio.NewReaderSize(out, 1<<16), 0
	return nil
}

func (p *proc) stop() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

// readSexp reads one atom or balanced s-expression.
func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inBar, inStr := false, false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		if inBar {
			sb.WriteByte(c)
			if c == '|' {
				inBar = false
			}
			continue
		}
		if inStr {
			sb.WriteByte(c)
			if c == '"' {
				inStr = false
			}
			continue
		}
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case '|':
			inBar = true
		case '"':
			inStr = true
		case '\n', '\r', ' ', '\t':
			if depth == 0 {
				if sb.Len() == 0 {
					continue
				}
				return sb.String(), nil
			}
		}
		sb.WriteByte(c)
		if depth == 0 && c == ')' {
			return sb.String(), nil
		}
	}
}

// query sends text and reads the check-sat answer and, if sat, the values.
func (p *proc) query(text, vals string, hard time.Duration) (string, string, error) {
	if p.cmd == nil {
		if err := p.start(); err != nil {
			return "", "", err
		}
	}
	p.n++
	type ans struct {
		a, v string
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := io.WriteString(p.in, text+"(check-sat)\n"); err != nil {
			ch <- ans{err: err}
			return
		}
		a, err := readSexp(p.out)
		if err != nil {
			ch <- ans{err: err}
			return
		}
		v := ""
		if a == "sat" && vals != "" {
			if _, err = io.WriteString(p.in, "(get-value ("+vals+"))\n"); err == nil {
				v, err = readSexp(p.out)
			}
		}
		ch <- ans{a, v, err}
	}()
	t := time.NewTimer(hard)
	defer t.Stop()
	select {
	case r := <-ch:
		if r.err != nil {
			p.stop()
		}
		return r.a, r.v, r.err
	case <-t.C:
		p.cmd.Process.Kill()
		<-ch
		p.stop()
		return "unknown", "", nil
	}
}

// ---- shared statistics and cache -------------------------------------------

type SolverStats struct {
	Queries, CacheHits, SatN, UnsatN, UnknownN, Fallbacks, Errors, Cross, CrossDisagree, CrossSeen int64
	TimeNs                                                                                         int64
}

type cacheEntry struct {
	res   Result
	model Model
}

type SharedCache struct {
	mu sync.RWMutex
	m  map[[2]uint64]cacheEntry
}

func NewSharedCache() *SharedCache { return &SharedCache{m: map[[2]uint64]cacheEntry{}} }

type Solver struct {
	inc, fresh, alt, alt2 *proc
	stats                 *SolverStats
	cache                 *SharedCache
	cached                bool // the last answer came from the cache
	softMS                int  // soft timeout of the first attempt
	hardS                 int  // limit of each fallback
}

func NewSolver(st *SolverStats, cache *SharedCache, softMS, hardS int) *Solver {
	return &Solver{
		inc:   &proc{name: "z3-new", args: []string{"-in"}},
		fresh: &proc{name: "z3-new", args: []string{"-in"}},
		alt:   &proc{name: "cvc5", args: []string{"--incremental", "--produce-models", "--lang=smt2", "-q"}},
		alt2:  &proc{name: "cvc5", args: []string{"--incremental", "--produce-models", "--solve-bv-as-int=sum", "--lang=smt2", "-q"}},
		stats: st, cache: cache, softMS: softMS, hardS: hardS,
	}
}

func (s *Solver) Close() {
	s.inc.stop()
	s.fresh.stop()
	s.alt.stop()
	s.alt2.stop()
}

func queryKey(cs []*Term) [2]uint64 {
	var a, b uint64
	for _, c := range cs {
		a += c.hash * 0x9e3779b97f4a7c15
		b ^= mix(c.hash, 0xabcdef12345)
	}
	return [2]uint64{a, b}
}

// Check decides the conjunction of cs. The model covers exactly the variables of cs.
func (s *Solver) Check(tt *TermTable, cs []*Term) (Result, Model) {
	key := queryKey(cs)
	s.cache.mu.RLock()
	e, ok := s.cache.m[key]
	s.cache.mu.RUnlock()
	if ok {
		atomic.AddInt64(&s.stats.CacheHits, 1)
		s.cached = true
		return e.res, e.model
	}
	s.cached = false
	t0 := time.Now()
	res, model := s.solve(tt, cs)
	atomic.AddInt64(&s.stats.TimeNs, int64(time.Since(t0)))
	atomic.AddInt64(&s.stats.Queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
	}
	s.cache.mu.Lock()
	s.cache.m[key] = cacheEntry{res, model}
	s.cache.mu.Unlock()
	return res, model
}

func queryText(tt *TermTable, cs []*Term) (string, []*Term, bool) {
	var sb strings.Builder
	var vs bitset
	for _, c := range cs {
		vs = vs.or(c.vars)
	}
	vars := sortedVars(tt, vs)
	real := false
	for _, v := range vars {
		fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", v.name, v.sort)
		if v.sort.K == SReal {
			real = true
		}
	}
	for _, c := range cs {
		sb.WriteString("(assert ")
		writeTerm(&sb, c)
		sb.WriteString(")\n")
	}
	return sb.String(), vars, real
}

func (s *Solver) solve(tt *TermTable, cs []*Term) (Result, Model) {
	text, vars, real := queryText(tt, cs)
	var names []string
	for _, v := range vars {
		names = append(names, "|"+v.name+"|")
	}
	vals := strings.Join(names, " ")

	finish := func(a, v string) (Result, Model, bool) {
		switch a {
		case "unsat":
			return Unsat, nil, true
		case "sat":
			m := Model{}
			if len(vars) > 0 {
				if !parseModel(v, vars, m) {
					atomic.AddInt64(&s.stats.Errors, 1)
					return Sat, nil, true
				}
			}
			return Sat, m, true
		}
		return Unknown, nil, false
	}

	// 1. incremental z3, short timeout
	if s.inc.n > 20000 {
		s.inc.stop()
	}
	pre := ""
	if s.inc.cmd == nil {
		pre = fmt.Sprintf("(set-option :timeout %d)\n", s.softMS)
	}
	a, v, err := s.inc.query(pre+"(push 1)\n"+text, vals, time.Duration(s.softMS+4000)*time.Millisecond)
	if err == nil && s.inc.cmd != nil {
		if a != "sat" && a != "unsat" && a != "unknown" {
			atomic.AddInt64(&s.stats.Errors, 1)
			s.inc.stop()
		} else if _, err := io.WriteString(s.inc.in, "(pop 1)\n"); err != nil {
			s.inc.stop()
		}
	}
	if r, m, ok := finish(a, v); ok && err == nil {
		return r, m
	}
	atomic.AddInt64(&s.stats.Fallbacks, 1)
	// 2. fresh z3 (tactic mode), 3. cvc5, 4. cvc5 with integer encoding of bit-vectors
	hard := time.Duration(s.hardS) * time.Second
	a, v, err = s.fresh.query(fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", s.hardS*1000)+text, vals, hard+2*time.Second)
	if r, m, ok := finish(a, v); ok && err == nil {
		return r, m
	}
	if real {
		return Unknown, nil
	}
	a, v, err = s.alt.query("(reset)\n(set-logic ALL)\n"+text, vals, hard)
	if r, m, ok := finish(a, v); ok && err == nil {
		return r, m
	}
	a, v, err = s.alt2.query("(reset)\n(set-logic ALL)\n"+text, vals, hard)
	if r, m, ok := finish(a, v); ok && err == nil {
		return r, m
	}
	return Unknown, nil
}

// CrossCheck asks cvc5 the same query (used on samples).
func (s *Solver) CrossCheck(tt *TermTable, cs []*Term, want Result) (agree, answered bool) {
	text, _, _ := queryText(tt, cs)
	a, _, err := s.alt.query("(reset)\n(set-logic ALL)\n"+text, "", 5*time.Second)
	if err != nil || (a != "sat" && a != "unsat") {
		return true, false
	}
	atomic.AddInt64(&s.stats.Cross, 1)
	ok := (a == "sat") == (want == Sat)
	if !ok {
		atomic.AddInt64(&s.stats.CrossDisagree, 1)
	}
	return ok, true
}

// ---- model parsing ---------------------------------------------------------

type sx struct {
	atom string
	list []*sx
}

func parseSx(s string) *sx {
	pos := 0
	var parse func() *sx
	parse = func() *sx {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			r := &sx{list: []*sx{}}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
					pos++
				}
				if pos >= len(s) {
					return nil
				}
				if s[pos] == ')' {
					pos++
					return r
				}
				x := parse()
				if x == nil {
					return nil
				}
				r.list = append(r.list, x)
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for pos < len(s) && s[pos] != '|' {
				pos++
			}
			pos++
			return &sx{atom: s[st:pos]}
		}
		for pos < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[pos])) {
			pos++
		}
		return &sx{atom: s[st:pos]}
	}
	return parse()
}

func parseModel(v string, vars []*Term, m Model) bool {
	e := parseSx(v)
	if e == nil || len(e.list) != len(vars) {
		return false
	}
	for i, p := range e.list {
		if len(p.list) != 2 {
			return false
		}
		val, ok := parseVal(p.list[1], vars[i].sort)
		if !ok {
			if vars[i].sort.K == SReal {
				m[vars[i].name] = nil // algebraic number: not evaluable
				continue
			}
			return false
		}
		m[vars[i].name] = val
	}
	return true
}

func parseBits(a string) (uint64, int, bool) {
	if strings.HasPrefix(a, "#b") {
		u, err := strconv.ParseUint(a[2:], 2, 64)
		return u, len(a) - 2, err == nil
	}
	if strings.HasPrefix(a, "#x") {
		u, err := strconv.ParseUint(a[2:], 16, 64)
		return u, 4 * (len(a) - 2), err == nil
	}
	return 0, 0, false
}

func parseVal(e *sx, s Sort) (any, bool) {
	switch s.K {
	case SBool:
		return e.atom == "true", e.atom == "true" || e.atom == "false"
	case SBV:
		if len(e.list) == 3 && strings.HasPrefix(e.list[1].atom, "bv") {
			u, err := strconv.ParseUint(e.list[1].atom[2:], 10, 64)
			return u, err == nil
		}
		u, _, ok := parseBits(e.atom)
		return u, ok
	case SFP:
		if len(e.list) == 4 && e.list[0].atom == "fp" {
			a, _, ok1 := parseBits(e.list[1].atom)
			b, _, ok2 := parseBits(e.list[2].atom)
			c, _, ok3 := parseBits(e.list[3].atom)
			if !ok1 || !ok2 || !ok3 {
				return nil, false
			}
			if s.W == 32 {
				return float64(math.Float32frombits(uint32(a<<31 | b<<23 | c))), true
			}
			return math.Float64frombits(a<<63 | b<<52 | c), true
		}
		if len(e.list) == 4 && e.list[0].atom == "_" {
			switch e.list[1].atom {
			case "+oo":
				return math.Inf(1), true
			case "-oo":
				return math.Inf(-1), true
			case "NaN":
				return math.NaN(), true
			case "+zero":
				return float64(0), true
			case "-zero":
				return math.Copysign(0, -1), true
			}
		}
		return nil, false
	case SReal:
		return parseReal(e)
	}
	return nil, false
}

func parseReal(e *sx) (any, bool) {
	if e.list == nil {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(e.atom, "?"))
		if strings.HasSuffix(e.atom, "?") {
			return nil, false
		}
		return r, ok
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		x, ok := parseReal(e.list[1])
		if !ok {
			return nil, false
		}
		return new(big.Rat).Neg(x.(*big.Rat)), true
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		x, ok := parseReal(e.list[1])
		y, ok2 := parseReal(e.list[2])
		if !ok || !ok2 || y.(*big.Rat).Sign() == 0 {
			return nil, false
		}
		return new(big.Rat).Quo(x.(*big.Rat), y.(*big.Rat)), true
	}
	return nil, false
}
