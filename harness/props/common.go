// Package props holds one harness per property. Every harness drives the real code of
// github.com/rossmerr/graphblas through its exported API on symbolic inputs.
package props

import (
	"context"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"

	"verif/harness/sym"
)

// Num lists the element types the harnesses are instantiated with.
type Num = constraints.Number

var bg = context.Background()

// try reports whether f panicked.
func try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	f()
	return false
}

// ---- symbolic inputs

func vals[T Num](name string, n int) []T {
	a := make([]T, n)
	for i := range a {
		a[i] = sym.Val[T](name)
		sym.Assume(sym.Finite(a[i]))
	}
	return a
}

// valsAny allows NaN and infinities.
func valsAny[T sym.Scalar](name string, n int) []T {
	a := make([]T, n)
	for i := range a {
		a[i] = sym.Val[T](name)
	}
	return a
}

// rows makes r empty rows; without any, the number of columns is kept in a row beyond the end.
func rows[T any](r, c int) [][]T {
	if r > 0 {
		return make([][]T, r)
	}
	return [][]T{make([]T, c)}[:0]
}

// width is the number of columns of a grid.
func width[T any](g [][]T) int {
	if len(g) > 0 {
		return len(g[0])
	}
	if cap(g) > 0 {
		return len(g[:1][0])
	}
	return 0
}

func grid[T Num](name string, r, c int) [][]T {
	g := rows[T](r, c)
	for i := range g {
		g[i] = vals[T](name, c)
	}
	return g
}

func gridAny[T sym.Scalar](name string, r, c int) [][]T {
	g := rows[T](r, c)
	for i := range g {
		g[i] = valsAny[T](name, c)
	}
	return g
}

func zeros[T any](r, c int) [][]T {
	g := rows[T](r, c)
	for i := range g {
		g[i] = make([]T, c)
	}
	return g
}

func clone[T any](a [][]T) [][]T {
	g := rows[T](len(a), width(a))
	for i := range g {
		g[i] = append([]T(nil), a[i]...)
	}
	return g
}

// index is an arbitrary value in [0,n).
func index(name string, n int) int {
	if n == 1 {
		return 0
	}
	i := sym.Val[int](name)
	sym.Assume(sym.And(i >= 0, i < n))
	return i
}

// ---- containers

// empty builds an empty container of the given storage format. Vectors take r as length; c must be 1.
func empty[T Num](kind string, r, c int) gb.Matrix[T] {
	switch kind {
	case "dense":
		return gb.NewDenseMatrixN[T](r, c)
	case "csr":
		return gb.NewCSRMatrix[T](r, c)
	case "csc":
		return gb.NewCSCMatrix[T](r, c)
	case "dvec":
		return gb.NewDenseVectorN[T](r)
	case "svec":
		return gb.NewSparseVector[T](r)
	case "udense":
		return &userMatrix[T]{gb.NewDenseMatrixN[T](r, c)}
	case "usparse":
		return newUserSparse[T](r, c)
	}
	panic("kind " + kind)
}

// build makes a container holding g.
func build[T Num](kind string, g [][]T) gb.Matrix[T] {
	m := empty[T](kind, len(g), width(g))
	for r := range g {
		for c := range g[r] {
			m.Set(r, c, g[r][c])
		}
	}
	return m
}

func buildVec[T Num](kind string, a []T) gb.Vector[T] {
	v := empty[T](kind, len(a), 1).(gb.Vector[T])
	for i := range a {
		v.SetVec(i, a[i])
	}
	return v
}

func sparse(kind string) bool { return kind == "csr" || kind == "csc" || kind == "svec" || kind == "usparse" }
func isVec(kind string) bool  { return kind == "dvec" || kind == "svec" }

// holds asserts that m has exactly the dimensions and elements of g.
func holds[T constraints.Type](m gb.MatrixLogical[T], g [][]T, msg string) {
	rows, cols := len(g), width(g)
	sym.Assert(m.Rows() == rows && m.Columns() == cols, msg+": dimensions")
	if m.Rows() != rows || m.Columns() != cols {
		return
	}
	for r := 0; r < rows; r++ {
		for c := 0; c < cols; c++ {
			sym.Assert(sym.Same(m.At(r, c), g[r][c]), msg)
		}
	}
}

// content reads a container out.
func content[T Num](m gb.MatrixLogical[T]) [][]T {
	g := zeros[T](m.Rows(), m.Columns())
	for r := range g {
		for c := range g[r] {
			g[r][c] = m.At(r, c)
		}
	}
	return g
}

func observe[T Num](m gb.MatrixLogical[T]) {
	for r := 0; r < m.Rows(); r++ {
		for c := 0; c < m.Columns(); c++ {
			sym.Observe(m.At(r, c))
		}
	}
}

// positive is v > 0 without branching.
func positive[T Num](v T) bool { return v > 0 }

// ---- context that cancels at its k-th poll

type pollCtx struct {
	context.Context
	at, polls int
	ch        chan struct{}
	done      bool
}

// cancelAt returns a context that is cancelled from the k-th poll on (k < 0: never).
func cancelAt(k int) *pollCtx {
	c := &pollCtx{Context: context.Background(), at: k, ch: make(chan struct{})}
	if k == 0 {
		c.cancel()
	}
	return c
}

func (c *pollCtx) cancel() {
	if !c.done {
		c.done = true
		close(c.ch)
	}
}

func (c *pollCtx) tick() (done bool) {
	sym.Atomically(func() {
		if c.at >= 0 {
			if c.polls >= c.at {
				c.cancel()
			}
			c.polls++
		}
		done = c.done
	})
	return
}

func (c *pollCtx) Done() <-chan struct{} {
	c.tick()
	return c.ch
}

func (c *pollCtx) Err() error {
	if c.tick() {
		return context.Canceled
	}
	return nil
}

// asyncCtx is cancelled by another goroutine at an arbitrary moment.
type asyncCtx struct {
	context.Context
	ch chan struct{}
}

func cancelAsync() *asyncCtx {
	c := &asyncCtx{context.Background(), make(chan struct{})}
	go func() {
		sym.Yield()
		close(c.ch)
	}()
	return c
}

func (c *asyncCtx) Done() <-chan struct{} { return c.ch }

func (c *asyncCtx) Err() error {
	select {
	case <-c.ch:
		return context.Canceled
	default:
		return nil
	}
}

// ---- job registry

// Job is one harness instance.
type Job struct {
	Name     string  `json:"name"`
	Fn       string  `json:"fn"`
	Bound    string  `json:"bound"`
	Cfg      sym.Cfg `json:"cfg"`
	MaxSteps int64   `json:"maxSteps,omitempty"`
	MaxPaths int64   `json:"maxPaths,omitempty"`
}

// Registry maps harness names to functions.
var Registry = map[string]func(sym.Cfg){}

var jobsOf = map[string]func(thorough bool) []Job{}

// Jobs lists the instances checked for a property.
func Jobs(prop, tier string) []Job {
	f := jobsOf[prop]
	if f == nil {
		return nil
	}
	names, seen := map[string]int{}, map[string]bool{}
	var l []Job
	for _, j := range f(tier == "thorough") {
		key := j.Name + " " + itoa(j.Cfg.Preempt)
		if j.Cfg.Race {
			key += " race"
		}
		if j.Cfg.Real {
			key += " real"
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		if n := names[j.Name]; n > 0 {
			names[j.Name]++
			j.Name += "-" + itoa(n+1)
		} else {
			names[j.Name] = 1
		}
		l = append(l, j)
	}
	return l
}

// more adds jobs to a property.
func more(prop string, f func(thorough bool) []Job) {
	old := jobsOf[prop]
	jobsOf[prop] = func(thorough bool) []Job { return append(old(thorough), f(thorough)...) }
}

func cfg(typ string, kinds []string, n ...int) sym.Cfg {
	return sym.Cfg{Typ: typ, Kind: kinds, N: n, Preempt: -1, Real: typ == "float64"}
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

func name(c sym.Cfg) string {
	s := c.Op
	for _, k := range c.Kind {
		if s != "" {
			s += "-"
		}
		s += k
	}
	s += "-" + c.Typ
	for i, n := range c.N {
		if i == 0 {
			s += "-"
		} else {
			s += "x"
		}
		s += itoa(n)
	}
	return s
}

// ---- job construction

var (
	matKinds = []string{"dense", "csr", "csc"}
	vecKinds = []string{"dvec", "svec"}
	allKinds = []string{"dense", "csr", "csc", "dvec", "svec"}
)

var allNums = []string{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "uintptr", "float32", "float64"}

// mk makes a job; floats are exact reals when real is set, IEEE otherwise.
func mk(fn, op, typ string, kinds []string, real bool, bound string, n ...int) Job {
	g := cfg(typ, kinds, n...)
	g.Op = op
	g.Real = real && typ == "float64"
	k := ""
	for i, s := range kinds {
		if i > 0 {
			k += "/"
		}
		k += s
	}
	b := bound + "; "
	if op != "" {
		b += op + "; "
	}
	b += k + " of " + typ
	if g.Real {
		b += " (exact arithmetic)"
	}
	for i, x := range n {
		if i == 0 {
			b += "; sizes "
		} else {
			b += "x"
		}
		b += itoa(x)
	}
	return Job{Name: name(g), Fn: fn, Bound: b, Cfg: g}
}

// shape gives the rows and columns of a container of the kind built from sizes r and c.
func shape(kind string, r, c int) (int, int) {
	if isVec(kind) {
		return r, 1
	}
	return r, c
}

// combos lists all k-tuples over kinds.
func combos(kinds []string, k int) [][]string {
	if k == 0 {
		return [][]string{nil}
	}
	var l [][]string
	for _, t := range combos(kinds, k-1) {
		for _, x := range kinds {
			l = append(l, append(append([]string(nil), t...), x))
		}
	}
	return l
}

func count[T comparable](a [][]T, f func(T) bool) int {
	n := 0
	for i := range a {
		for j := range a[i] {
			if f(a[i][j]) {
				n++
			}
		}
	}
	return n
}

func numSparse(kinds []string) int {
	n := 0
	for _, k := range kinds {
		if sparse(k) {
			n++
		}
	}
	return n
}
