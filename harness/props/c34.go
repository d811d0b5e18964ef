package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"

	"verif/harness/sym"
)

func init() {
	Registry["C34"] = C34
	Registry["C35"] = C35
	jobsOf["C34"] = func(thorough bool) []Job {
		var l []Job
		for _, k := range allKinds {
			for _, typ := range []string{"int8", "float64"} {
				shapes := [][2]int{{2, 2}, {1, 3}, {3, 1}}
				if thorough {
					shapes = append(shapes, [2]int{2, 3}, [2]int{3, 2})
				}
				if isVec(k) {
					shapes = [][2]int{{3, 1}, {4, 1}}
				}
				for i, s := range shapes {
					if typ != "int8" && i > 0 {
						break
					}
					l = append(l, mk("C34", "", typ, []string{k}, false, "arbitrary contents; an update, map, application (also in place) or search whose function panics at any of its calls, then a write and a full reading", s[0], s[1]))
				}
			}
			r, q := shape(k, 2, 2)
			l = append(l, mk("C34", "mutex", "int8", []string{k}, false, "arbitrary contents; an update of the mutex-wrapped container whose function panics, then a write, an update and a full reading", r, q))
			for _, s := range bigShapes(k, thorough) {
				l = append(l, mk("C34", "pat", "int8", []string{k}, false, "patterns of stored cells, one arbitrary value among constants; an update, map or application (also in place) whose function panics at one of three calls, then a write and a full reading", s[0], s[1]))
			}
		}
		return l
	}
	jobsOf["C35"] = func(thorough bool) []Job {
		var l []Job
		for _, k := range allKinds {
			r, c := shape(k, 2, 2)
			j := mk("C35", "", "int8", []string{k}, false, "three patterns of stored cells with arbitrary non-zero values; any two reading operations in two goroutines, data races, all interleavings", r+1, c)
			j.Cfg.Race = true
			l = append(l, j)
			if thorough {
				for _, s := range bigShapes(k, false)[:1] {
					j := mk("C35", "", "int16", []string{k}, false, "three patterns of stored cells with arbitrary non-zero values; any two reading operations in two goroutines, data races, default schedule", s[0], s[1])
					j.Cfg.Race, j.Cfg.Preempt = true, 0
					l = append(l, j)
				}
			}
			j = mk("C35", "separate", "int8", []string{k}, false, "two goroutines working on containers of their own: any reading operation, and writes, a map, a clear, an application and in-place operations; data races, all interleavings", r, c)
			j.Cfg.Race = true
			l = append(l, j)
			for _, op := range []string{"reduce", "bfs"} {
				if op == "bfs" && isVec(k) {
					continue
				}
				j = mk("C35", op, "int8", []string{k}, false, "as above, one of the operations being "+op+"; at most one scheduling decision off the default", r, c)
				j.Cfg.Race, j.Cfg.Preempt = true, 1
				l = append(l, j)
			}
		}
		for _, k := range []string{"dmat", "dv"} {
			j := mk("C35", "runes", "int32", []string{k}, false, "arbitrary runes; any two of string form, comparison, less, greater, equality and sorting in two goroutines, on the same or on different containers; data races, at most one scheduling decision off the default", 2, 1)
			j.Cfg.Race, j.Cfg.Preempt = true, 1
			l = append(l, j)
		}
		return l
	}
}

// ---- C34

func C34(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c34[int8](c)
	case "float64":
		c34[float64](c)
	}
}

// c34 calls an operation with a function that panics at its k-th call.
func c34[T Num](c sym.Cfg) {
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	var model [][]T
	k := 0
	if c.Op == "pat" {
		model = constantWith[T]("a", R, C, somePattern(R, C), 1, 1)
		k = []int{0, 1, R*C - 2}[sym.Choose(3)]
	} else {
		model = grid[T]("a", R, C)
		k = sym.Choose(R * C)
	}
	m := build(kind, model)
	if c.Op == "mutex" {
		x := gb.NewMutexMatrix(m)
		for i := 0; i < 2; i++ {
			r, cc := sym.Choose(R), sym.Choose(C)
			sym.Assert(try(func() { x.Update(r, cc, func(T) T { panic("the function fails") }) }), "the function's panic reaches the caller")
		}
		r, cc := sym.Choose(R), sym.Choose(C)
		v := sym.Val[T]("v")
		x.Set(r, cc, v)
		x.Update(r, cc, func(old T) T { return old + 1 })
		model[r][cc] = v + 1
		for i := range model {
			for j := range model[i] {
				sym.Assert(sym.Same(x.At(i, j), model[i][j]), "a later write is read back")
			}
		}
		holds[T](m, model, "the other elements are unchanged")
		return
	}
	var dst gb.Matrix[T]
	old := constant[T](R, C, 0, 2)
	calls := 0
	stop := func() { // the function's k-th call fails
		if calls++; calls > k {
			panic("the function fails")
		}
	}
	n := 4
	if c.Op != "pat" && !isVec(kind) && R == C {
		n = 5
	}
	failed := false
	switch op := sym.Choose(n); op {
	case 0:
		r, cc := place("r", R), place("c", C)
		failed = try(func() {
			f := func(T) T { panic("the function fails") }
			if x, ok := m.(gb.MatrixCompressed[T]); ok && sym.Choose(2) == 1 {
				x.UpdateReturnPointer(r, cc, f)
			} else {
				m.Update(r, cc, f)
			}
		})
		sym.Assert(failed, "the function's panic reaches the caller")
	case 1, 2:
		after := clone(model)
		f := func(x T) T { return sym.Ite(x == 1, T(0), x+T(1)) }
		if op == 1 {
			failed = try(func() {
				for it := m.Map(); it.HasNext(); {
					it.Map(func(r, c int, x T) T {
						stop()
						if within(r, R) && within(c, C) {
							after[r][c] = f(x)
						}
						return f(x)
					})
				}
			})
			sym.Assert(failed == (calls > k), "the function's panic reaches the caller")
			model = after
		} else {
			failed = try(func() {
				runOp[T](bg, "apply", m, nil, m, nil, unaryop.NewUnaryOp(func(x T) T { stop(); return f(x) }))
			})
			sym.Assert(failed == (calls > k), "the function's panic reaches the caller")
			for i := range model {
				for j := range model[i] {
					got, fin := m.At(i, j), f(model[i][j])
					if sparse(kind) {
						fin = sym.Ite(model[i][j] == 0, T(0), fin)
					}
					sym.Assert(sym.Or(sym.Same(got, model[i][j]), sym.Same(got, fin)), "every element has its previous or its final value")
					model[i][j] = got
				}
			}
		}
	case 3:
		dst = build(kind, old)
		failed = try(func() {
			runOp[T](bg, "apply", m, nil, dst, nil, unaryop.NewUnaryOp(func(x T) T { stop(); return x + x }))
		})
		sym.Assert(failed == (calls > k), "the function's panic reaches the caller")
		for i := range model {
			for j := range model[i] {
				got := dst.At(i, j)
				sym.Assert(sym.Or(sym.Same(got, old[i][j]), sym.Same(got, model[i][j]+model[i][j])), "every element of the destination has its previous or its final value")
			}
		}
	case 4:
		for i := range model {
			for j := range model[i] {
				sym.Assume(model[i][j] >= 0)
			}
		}
		failed = try(func() {
			breadthfirst.Search(bg, m, 0, func(v gb.Vector[T]) bool { stop(); return false })
		})
		sym.Assert(failed == (calls > k), "the callback's panic reaches the caller")
	}
	holds[T](m, model, "the other elements are unchanged")
	if failed {
		sym.Cover("failed")
	}
	// the container is still usable
	r, cc := R-1, 0
	if c.Op == "pat" {
		cc = (C - 1) * sym.Choose(2)
	} else {
		cc = sym.Choose(C)
	}
	v := sym.Val[T]("v")
	sym.Assume(sym.Finite(v))
	m.Set(r, cc, v)
	model[r][cc] = v
	holds[T](m, model, "a later write is read back")
	c03Check[T](m, model, sparse(kind))
	if dst != nil {
		g := content[T](dst)
		dst.Set(r, cc, v)
		g[r][cc] = v
		holds[T](dst, g, "a later write to the destination is read back")
		c03Check[T](dst, g, sparse(kind))
	}
	observe[T](m)
}

// ---- C35

func C35(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c35[int8](c)
	case "int16":
		c35[int16](c)
	case "int32":
		c35runes(c)
	}
}

// both runs f in a goroutine and g here, and waits for f.
func both(f, g func()) {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	g()
	<-done
}

// runeReader does one operation on a and b.
func runeReader(op int, a, b gb.MatrixLogical[rune]) func() string {
	yes := func(b bool) string {
		if b {
			return "yes"
		}
		return "no"
	}
	switch op {
	case 0:
		return func() string { return gb.String(bg, a) }
	case 1:
		return func() string { return itoa(gb.Compare(bg, a, b)) }
	case 2:
		return func() string { return yes(gb.Less(bg, b, a)) }
	case 3:
		return func() string { return yes(gb.Greater(bg, b, a)) }
	case 4:
		return func() string { return yes(a.Equal(b)) }
	case 5:
		return func() string { return gb.String(bg, sort.BubbleRow(bg, a)) }
	}
	return func() string { return gb.String(bg, sort.BubbleColumns(bg, b)) }
}

func c35runes(c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	g, h := grid[rune]("a", R, C), zeros[rune](R, C)
	for i := range h {
		h[i][0] = 'c' - rune(i)
	}
	for i := range g {
		for j := range g[i] {
			sym.Assume(g[i][j] >= 'a' && g[i][j] <= 'e')
		}
	}
	a, b := runesOf(c.Kind[0], g), runesOf(c.Kind[0], h)
	x, y := a, b
	if sym.Choose(2) == 1 {
		x, y = runesOf(c.Kind[0], h), runesOf(c.Kind[0], g)
	}
	p := sym.Choose(7)
	q := p + sym.Choose(7-p)
	wantp, wantq := runeReader(p, a, b)(), runeReader(q, x, y)()
	var gotp, gotq string
	f, k := runeReader(p, a, b), runeReader(q, x, y)
	both(func() { gotp = f() }, func() { gotq = k() })
	sym.Assert(gotp == wantp && gotq == wantq, "concurrent reading gives what reading alone gives")
}

func runesOf(kind string, g [][]rune) gb.MatrixLogical[rune] {
	var m gb.MatrixLogical[rune]
	if kind == "dv" {
		m = gb.NewDenseVector[rune](len(g))
	} else {
		m = gb.NewDenseMatrix[rune](len(g), width(g))
	}
	for i := range g {
		for j := range g[i] {
			m.Set(i, j, g[i][j])
		}
	}
	return m
}

// worker does one operation, reading or writing, on a container of its own.
func worker[T Num](op int, model [][]T, kind string) func() [][]T {
	R, C := len(model), width(model)
	m := build(kind, model)
	if op < readers {
		return reader(op, m, kind, R, C)
	}
	o := build(kind, constant[T](R, C, 4, 3))
	return func() [][]T {
		switch op - readers {
		case 0:
			m.Set(R-1, C-1, 9)
			m.Set(0, 0, 0)
		case 1:
			m.Update(R-1, 0, func(v T) T { return v + 1 })
		case 2:
			for it := m.Map(); it.HasNext(); {
				it.Map(func(r, c int, v T) T { return v - v })
			}
		case 3:
			m.Clear()
			m.Set(0, C-1, 3)
		case 4:
			runOp[T](bg, "apply", m, nil, m, nil, unaryop.NewUnaryOp(func(v T) T { return v + 2 }))
		case 5:
			gb.Add(bg, m, o, nil, m)
		case 6:
			gb.Subtract(bg, m, o, m, m)
		case 7:
			gb.Negative(bg, m, nil, m)
		}
		return content[T](m)
	}
}

const workers = readers + 8

func c35separate[T Num](c sym.Cfg) {
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	a, b := constant[T](R, C, 2, 1), constant[T](R, C, 5, 2)
	p := sym.Choose(workers)
	q := p + sym.Choose(workers-p)
	wantp, wantq := worker(p, a, kind)(), worker(q, b, kind)()
	f, g := worker(p, a, kind), worker(q, b, kind)
	var gotp, gotq [][]T
	both(func() { gotp = f() }, func() { gotq = g() })
	agree(gotp, wantp)
	agree(gotq, wantq)
}

func agree[T Num](got, want [][]T) {
	sym.Assert(len(got) == len(want), "working concurrently gives what working alone gives")
	if len(got) != len(want) {
		return
	}
	for i := range got {
		for j := range got[i] {
			sym.Assert(sym.Same(got[i][j], want[i][j]), "working concurrently gives what working alone gives")
		}
	}
}

const readers = 19

// reader does one reading operation on m; what else it needs is its own.
func reader[T Num](op int, m gb.Matrix[T], kind string, R, C int) func() [][]T {
	logical := func(b bool) [][]T { return [][]T{{sym.Ite(b, T(1), T(0))}} }
	y := constant[T](R, C, 4, 3)
	o := build(kind, y)
	d := empty[T](kind, R, C)
	mul := build("csr", constant[T](C, 1, 0, 1))
	lhs := build("csc", constant[T](1, R, 0, 1))
	one := empty[T]("dense", 1, C)
	switch op {
	case 0:
		return func() [][]T { return [][]T{{m.At(R-1, C-1)}} }
	case 1:
		return func() [][]T { return logical(m.Element(0, 0)) }
	case 2:
		return func() [][]T { return [][]T{{T(m.Values()), T(m.Size()), T(m.Rows()), T(m.Columns())}} }
	case 3:
		return func() [][]T { return content[T](m.RowsAt(0)) }
	case 4:
		return func() [][]T { return content[T](m.ColumnsAt(C - 1)) }
	case 5:
		return func() [][]T { return [][]T{m.RowsAtToArray(R - 1)} }
	case 6:
		return func() [][]T { return content[T](m.Copy()) }
	case 7:
		return func() [][]T { return content[T](m.CopyLogical()) }
	case 8:
		return func() [][]T {
			g := zeros[T](R, C)
			for it := m.Enumerate(); it.HasNext(); {
				r, c, v := it.Next()
				g[r][c] = v
			}
			return g
		}
	case 9:
		return func() [][]T { return logical(m.Equal(o)) }
	case 10:
		return func() [][]T { return logical(gb.NotEqual[T](bg, o, m)) }
	case 11:
		return func() [][]T { return content[T](m.Transpose()) }
	case 12:
		return func() [][]T { return content[T](m.Add(o)) }
	case 13:
		return func() [][]T { return content[T](o.Subtract(m)) }
	case 14:
		return func() [][]T { return content[T](m.Multiply(mul)) }
	case 15:
		return func() [][]T { gb.MatrixMatrixMultiply(bg, lhs, m, nil, one); return content[T](one) }
	case 16:
		return func() [][]T { return content[T](m.Scalar(3)) }
	case 17:
		return func() [][]T { return content[T](m.Negative()) }
	}
	return func() [][]T { // as mask and as operand
		gb.Negative(bg, o, m, d)
		op := "emul"
		if isVec(kind) {
			op = "emulv"
		}
		e := empty[T](kind, R, C)
		runOp[T](bg, op, m, o, e, nil, nil)
		return append(content[T](d), content[T](e)...)
	}
}

func c35[T Num](c sym.Cfg) {
	if c.Op == "separate" {
		c35separate[T](c)
		return
	}
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	model := pattern[T]("a", R, C, []int{0, 1, 8}[sym.Choose(3)])
	for i := range model {
		for j := range model[i] {
			if model[i][j] != 0 {
				sym.Assume(model[i][j] > 0)
			}
		}
	}
	m, fresh := build(kind, model), build(kind, model)
	pick := func(m gb.Matrix[T], op int) func() [][]T {
		switch {
		case op < 0 && c.Op == "reduce":
			return func() [][]T { return [][]T{{gb.ReduceMatrixToScalar(bg, m, gb.Mask(nil))}} }
		case op < 0:
			return func() [][]T {
				return content[T](breadthfirst.Search(bg, m, 0, func(v gb.Vector[T]) bool { return v.AtVec(1) > 0 }))
			}
		}
		return reader(op, m, kind, R, C)
	}
	p := sym.Choose(readers)
	q := -1
	if c.Op == "" {
		q = p + sym.Choose(readers-p)
	}
	f, g := pick(m, p), pick(m, q)
	wantf, wantg := pick(fresh, p)(), pick(fresh, q)()
	var gotf, gotg [][]T
	both(func() { gotf = f() }, func() { gotg = g() })
	agree(gotf, wantf)
	agree(gotg, wantg)
	holds[T](m, model, "reading changes nothing")
}
