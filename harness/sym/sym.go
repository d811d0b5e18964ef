// Package sym is the harness API. The symbolic engine intercepts these functions; the bodies below
// are the native implementation used to replay concrete inputs against the compiled repository.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// Cfg holds the concrete parameters of a harness instance.
type Cfg struct {
	H       string
	Kind    []string
	Typ     string
	N       []int
	Op      string
	Real    bool // floats are encoded as exact reals
	Race    bool
	Preempt int // preemption bound, -1 unbounded
}

type Scalar interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~bool
}

type rec struct {
	K string `json:"k"`
	T string `json:"t"`
	V string `json:"v"`
}

type file struct {
	Fn     string `json:"fn"`
	Cfg    Cfg    `json:"cfg"`
	Inputs []rec  `json:"inputs"`
	Real   bool   `json:"exact_arithmetic"`
	Tight  bool   `json:"tight"`
}

var (
	mu       sync.Mutex
	rf       file
	pos      int
	obs      [][]string
	leaks    bool
	base     int
	jitter   uint64
	fallback bool
)

type result struct {
	Outcome string     `json:"outcome"`
	Msg     string     `json:"msg"`
	Obs     [][]string `json:"obs"`
}

func finish(outcome, msg string, code int) {
	b, _ := json.Marshal(result{outcome, msg, obs})
	fmt.Printf("SYMRESULT %s\n", b)
	os.Exit(code)
}

// Run executes the harness stored in a replay file.
func Run(path string, reg map[string]func(Cfg)) {
	b, err := os.ReadFile(path)
	if err == nil {
		rf.Cfg.Preempt = -1
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		finish("error", err.Error(), 9)
	}
	f := reg[rf.Fn]
	if f == nil {
		finish("error", "no harness "+rf.Fn, 9)
	}
	if s := os.Getenv("SYM_JITTER"); s != "" {
		n, _ := strconv.Atoi(s)
		jitter = uint64(n)*0x9E3779B97F4A7C15 + 1
	}
	base = runtime.NumGoroutine()
	zeroTime = time.Now()
	f(rf.Cfg)
	if leaks {
		for i := 0; i < 200 && runtime.NumGoroutine() > base; i++ {
			time.Sleep(5 * time.Millisecond)
		}
		if n := runtime.NumGoroutine(); n > base {
			finish("leak", fmt.Sprintf("%d goroutine(s) left behind", n-base), 5)
		}
	}
	finish("ok", "", 0)
}

func next(kind string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(rf.Inputs) {
		return "", false
	}
	r := rf.Inputs[pos]
	pos++
	if r.K != kind {
		finish("error", fmt.Sprintf("input %d: want %s, have %s", pos-1, kind, r.K), 9)
	}
	return r.V, true
}

// Val returns an arbitrary value of T.
func Val[T Scalar](name string) T {
	var z T
	s, ok := next("val")
	if !ok {
		return z
	}
	switch p := any(&z).(type) {
	case *bool:
		*p = s == "true"
	case *float32:
		f, _ := strconv.ParseFloat(s, 32)
		*p = float32(f)
	case *float64:
		*p, _ = strconv.ParseFloat(s, 64)
	case *uint, *uint8, *uint16, *uint32, *uint64, *uintptr:
		u, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			i, _ := strconv.ParseInt(s, 10, 64)
			u = uint64(i)
		}
		switch p := p.(type) {
		case *uint:
			*p = uint(u)
		case *uint8:
			*p = uint8(u)
		case *uint16:
			*p = uint16(u)
		case *uint32:
			*p = uint32(u)
		case *uint64:
			*p = u
		case *uintptr:
			*p = uintptr(u)
		}
	default:
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			u, _ := strconv.ParseUint(s, 10, 64)
			i = int64(u)
		}
		switch p := p.(type) {
		case *int:
			*p = int(i)
		case *int8:
			*p = int8(i)
		case *int16:
			*p = int16(i)
		case *int32:
			*p = int32(i)
		case *int64:
			*p = i
		}
	}
	return z
}

// Bool returns an arbitrary boolean.
func Bool(name string) bool { return Val[bool](name) }

// Choose returns an arbitrary value in [0,n).
func Choose(n int) int {
	s, ok := next("choose")
	if !ok {
		return 0
	}
	i, _ := strconv.Atoi(s)
	return i
}

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		finish("assume", "", 4)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		finish("fail", msg, 3)
	}
}

// Fail reports a violation unconditionally.
func Fail(msg string) { Assert(false, msg) }

// Cover marks a situation that must be reachable.
func Cover(label string) {}

// NoLeaks requires that no goroutine is left when the harness ends.
func NoLeaks() { leaks = true }

func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

func Ite[T Scalar](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// Same is equality that treats NaN as equal to itself (and -0 as equal to 0). When an exact-arithmetic
// counterexample is replayed in floating point, rounding is tolerated.
// scale is the magnitude below which a difference counts as rounding: the largest input's when a
// counterexample is replayed, at most one.
func scale() float64 {
	if !rf.Tight {
		return 1
	}
	var s float64
	for _, r := range rf.Inputs {
		if len(r.T) > 5 && r.T[:5] == "float" {
			if x, err := strconv.ParseFloat(r.V, 64); err == nil {
				s = math.Max(s, math.Abs(x))
			}
		}
	}
	if s == 0 {
		return 1
	}
	return math.Min(1, s)
}

func Same[T Scalar](a, b T) bool {
	if a == b {
		return true
	}
	switch x := any(a).(type) {
	case float64:
		y := any(b).(float64)
		if math.IsNaN(x) && math.IsNaN(y) {
			return true
		}
		if rf.Real {
			d := math.Abs(x - y)
			return d <= 1e-6*math.Max(scale(), math.Max(math.Abs(x), math.Abs(y)))
		}
	case float32:
		y := any(b).(float32)
		if x != x && y != y {
			return true
		}
		if rf.Real {
			d := math.Abs(float64(x - y))
			return d <= 1e-3*math.Max(scale(), math.Max(math.Abs(float64(x)), math.Abs(float64(y))))
		}
	}
	return false
}

// Finite excludes NaN and infinities.
func Finite[T Scalar](a T) bool {
	switch x := any(a).(type) {
	case float64:
		return !math.IsNaN(x) && !math.IsInf(x, 0)
	case float32:
		return !math.IsNaN(float64(x)) && !math.IsInf(float64(x), 0)
	}
	return true
}

// Observe records values for the comparison of engine and native run.
func Observe(args ...any) {
	var l []string
	for _, a := range args {
		switch x := a.(type) {
		case float64:
			if math.IsNaN(x) {
				l = append(l, "NaN")
				continue
			}
			if x == 0 {
				x = 0
			}
			l = append(l, fmt.Sprint(x))
		case float32:
			switch {
			case x != x:
				l = append(l, "NaN")
			case x == 0:
				l = append(l, "0")
			default:
				l = append(l, fmt.Sprint(x))
			}
		default:
			l = append(l, fmt.Sprint(a))
		}
	}
	mu.Lock()
	obs = append(obs, l)
	mu.Unlock()
}

// Exact says whether floats are exact reals.
func Exact() bool { return rf.Real }

// Yield is a scheduling point.
func Yield() {
	if jitter == 0 {
		return
	}
	mu.Lock()
	jitter = jitter*6364136223846793005 + 1442695040888963407
	j := jitter >> 33
	mu.Unlock()
	switch j % 4 {
	case 0:
	case 1:
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(j%97) * time.Microsecond)
	}
}

var zeroTime time.Time

// Stamp returns a later value than every call that has returned before.
func Stamp() int { return int(time.Since(zeroTime)) }

var atom sync.Mutex

// Atomically runs f without interference from other calls of Atomically.
func Atomically(f func()) {
	atom.Lock()
	defer atom.Unlock()
	f()
}
