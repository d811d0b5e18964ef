package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/unaryop"

	"verif/harness/sym"
)

// Histories: a container that was written, read, enumerated and mapped (also not to the end) in an arbitrary order.

// histJobs gives the jobs of fn whose containers have an arbitrary short history of up to three steps.
func histJobs(fn, what string, two bool) func(thorough bool) []Job {
	return func(thorough bool) []Job {
		var l []Job
		add := func(typ, k string, r, c, steps int) {
			b := "any sequence of " + itoa(steps) + " steps (last size) of reading one cell, writing zero or an arbitrary non-zero value to one cell, enumerating or mapping to the end or only in part, asking an exhausted iterator again, copying, clearing, from " + itoa(len(histStarts)) + " patterns of stored cells; then " + what
			l = append(l, mk(fn, "history", typ, []string{k}, false, b, r, c, steps))
		}
		for _, k := range allKinds {
			steps := 3
			if two || !sparse(k) {
				steps = 2
			}
			switch {
			case isVec(k):
				add("int8", k, 3, 1, steps)
				if thorough {
					add("int8", k, 4, 1, 3)
				}
			case two && !thorough:
				add("int8", k, 2, 2, steps)
			default:
				add("int8", k, 2, 2, steps)
				if k == "csc" {
					add("int8", k, 3, 1, steps)
				} else {
					add("int8", k, 1, 3, steps)
				}
				if thorough && two {
					add("int8", k, 2, 3, 2)
				}
			}
		}
		return l
	}
}

func init() {
	Registry["C33"] = C33
	jobsOf["C33"] = histJobs("C33", "one operation, on it and on a container built afresh with the same elements", true)
	for fn, what := range map[string]string{
		"C01": "all cells read",
		"C03": "one full enumeration, or two iterators in lockstep",
		"C04": "a full map to arbitrary values",
	} {
		more(fn, histJobs(fn, what, fn == "C04"))
	}
}

var histStarts = []int{1, 0, 8}

// history gives a container of the job's format an arbitrary short history and returns its elements.
func history[T Num](c sym.Cfg) (gb.Matrix[T], [][]T) {
	R, C := c.N[0], c.N[1]
	model := pattern[T]("a", R, C, histStarts[sym.Choose(len(histStarts))])
	m := build(c.Kind[0], model)
	for k := 0; k < c.N[2]; k++ {
		m = step(m, model, k)
	}
	return m, model
}

// step does one arbitrary thing to m. All but its last steps are concrete about which elements are zero.
func step[T Num](m gb.Matrix[T], model [][]T, k int) gb.Matrix[T] {
	R, C := len(model), width(model)
	cell := func() (int, int) {
		n := sym.Choose(R * C)
		return n / C, n % C
	}
	value := func(name string) T {
		if sym.Choose(2) == 0 {
			return 0
		}
		return nonzero[T](name)
	}
	switch sym.Choose(8) {
	case 0:
		r, c := cell()
		m.At(r, c)
	case 1:
		r, c := cell()
		v := value("v")
		set(m, r, c, v, k+r+c)
		model[r][c] = v
	case 2: // an enumeration given up after one step
		it := m.Enumerate()
		if it.HasNext() {
			it.Next()
		}
	case 3: // an exhausted iterator asked again
		it := m.Enumerate()
		for it.HasNext() {
			it.Next()
		}
		it.HasNext()
	case 4: // a map given up after one or two steps
		it := m.Map()
		for n := 1 + sym.Choose(2); n > 0 && it.HasNext(); n-- {
			it.Map(func(r, c int, _ T) T {
				model[r][c] = value("f")
				return model[r][c]
			})
		}
	case 5: // a map to the end, and asked again
		it := m.Map()
		for it.HasNext() {
			it.Map(func(r, c int, _ T) T {
				model[r][c] = value("f")
				return model[r][c]
			})
		}
		it.HasNext()
	case 6:
		if sym.Choose(2) == 0 {
			m.Copy()
		} else {
			m = m.Copy()
		}
	case 7:
		m.Clear()
		for i := range model {
			for j := range model[i] {
				model[i][j] = 0
			}
		}
	}
	return m
}

// set writes v in one of the ways there are.
func set[T Num](m gb.Matrix[T], r, c int, v T, way int) {
	switch x := m.(type) {
	case gb.MatrixCompressed[T]:
		switch way % 4 {
		case 0:
			x.Set(r, c, v)
		case 1:
			x.Update(r, c, func(T) T { return v })
		case 2:
			x.SetReturnPointer(r, c, v)
		case 3:
			x.UpdateReturnPointer(r, c, func(T) T { return v })
		}
	case gb.Vector[T]:
		switch way % 3 {
		case 0:
			x.Set(r, c, v)
		case 1:
			x.Update(r, c, func(T) T { return v })
		case 2:
			x.SetVec(r, v)
		}
	default:
		if way%2 == 0 {
			m.Set(r, c, v)
		} else {
			m.Update(r, c, func(T) T { return v })
		}
	}
}

func c01History[T Num](c sym.Cfg) {
	m, model := history[T](c)
	holds[T](m, model, "element reads back the last write")
	observe[T](m)
}

func c03History[T Num](c sym.Cfg) {
	m, _ := history[T](c)
	model := content[T](m)
	if sym.Choose(2) == 0 {
		c03Check[T](m, model, sparse(c.Kind[0]))
		return
	}
	// two iterators in lockstep
	R, C := len(model), width(model)
	its := []gb.Enumerate[T]{m.Enumerate(), m.Enumerate()}
	seen := [][][]int{zeros[int](R, C), zeros[int](R, C)}
	for n := 0; n <= R*C; n++ {
		for k, it := range its {
			if !it.HasNext() {
				continue
			}
			r, c, v := it.Next()
			ok := sym.And(within(r, R), within(c, C))
			sym.Assert(ok, "visited coordinates are in range")
			if !ok {
				return
			}
			seen[k][r][c]++
			sym.Assert(sym.Same(v, model[r][c]), "the reported value is the cell's")
		}
	}
	for k, g := range seen {
		sym.Assert(!its[k].HasNext(), "no more visits than cells")
		for i := range g {
			for j := range g[i] {
				if sparse(c.Kind[0]) {
					sym.Assert(sym.Iff(g[i][j] == 1, model[i][j] != 0), "each iterator visits exactly the non-zero cells")
				} else {
					sym.Assert(g[i][j] == 1, "each iterator visits every cell once")
				}
			}
		}
	}
}

// C33 applies one operation to a container with a history and to one built afresh with the same elements.
func C33(c sym.Cfg) { c33[int8](c) }

func c33[T Num](c sym.Cfg) {
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	m, _ := history[T](c)
	model := content[T](m)
	f := build(kind, model)
	same := func(a, b gb.MatrixLogical[T]) {
		sym.Assert(a.Rows() == b.Rows() && a.Columns() == b.Columns(), "results have the same dimensions")
		if a.Rows() == b.Rows() && a.Columns() == b.Columns() {
			holds(a, content(b), "results have the same elements")
			sym.Assert(a.Values() == b.Values(), "results have the same number of elements")
			observe[T](a)
		}
	}
	y := constant[T](R, C, 4, 3)
	y[R-1][0] = 5
	o := build(kind, y)
	one := constant[T](C, 2, 4, 1)
	if isVec(kind) {
		one = constant[T](C, 1, 0, 1)
	}
	two := unaryop.NewUnaryOp(func(v T) T { return v + v })
	switch n := sym.Choose(17); n {
	case 0:
		same(m.Add(o), f.Add(o))
	case 1:
		same(o.Subtract(m), o.Subtract(f))
	case 2:
		same(m.Scalar(3), f.Scalar(3))
	case 3:
		same(m.Negative(), f.Negative())
	case 4:
		same(m.Transpose(), f.Transpose())
	case 5:
		same(m.Multiply(build("csr", one)), f.Multiply(build("csr", one)))
	case 6:
		same(m.CopyLogical(), f.CopyLogical())
	case 7:
		r := sym.Choose(R)
		same(m.RowsAt(r), f.RowsAt(r))
	case 8:
		r := sym.Choose(C)
		same(m.ColumnsAt(r), f.ColumnsAt(r))
	case 9:
		sym.Assert(m.Equal(f), "equal to a container with the same elements")
		sym.Assert(f.Equal(m), "equal to a container with the same elements")
		sym.Assert(!m.NotEqual(f), "equal to a container with the same elements")
	case 10:
		sym.Assert(m.Values() == f.Values() && m.Size() == f.Size(), "the same number of elements")
	case 11:
		sym.Assert(sym.Same(gb.ReduceMatrixToScalar(bg, m, gb.Mask(nil)), gb.ReduceMatrixToScalar(bg, f, gb.Mask(nil))), "reductions agree")
	case 12: // as destination, being the second operand
		runOp[T](bg, "apply", m, nil, m, nil, two)
		runOp[T](bg, "apply", f, nil, f, nil, two)
		same(m, f)
	case 13: // as mask
		a, b := build(kind, y), build(kind, y)
		runOp[T](bg, "negative", o, nil, a, m, nil)
		runOp[T](bg, "negative", o, nil, b, f, nil)
		same(a, b)
	case 14:
		op := "eadd"
		if isVec(kind) {
			op = "eaddv"
		}
		a, b := empty[T](kind, R, C), empty[T](kind, R, C)
		runOp[T](bg, op, o, m, a, nil, nil)
		runOp[T](bg, op, o, f, b, nil, nil)
		same(a, b)
	case 15:
		op := "emul"
		if isVec(kind) {
			op = "emulv"
		}
		a, b := empty[T](kind, R, C), empty[T](kind, R, C)
		runOp[T](bg, op, m, o, a, nil, nil)
		runOp[T](bg, op, f, o, b, nil, nil)
		same(a, b)
	case 16: // as a destination with stale elements
		if isVec(kind) {
			a := build("csr", constant[T](R, R, 4, 1)).(gb.Matrix[T])
			gb.MatrixVectorMultiply(bg, a, o.(gb.Vector[T]), nil, m.(gb.Vector[T]))
			gb.MatrixVectorMultiply(bg, a, o.(gb.Vector[T]), nil, f.(gb.Vector[T]))
		} else {
			a := build("csr", constant[T](R, R, 4, 1))
			gb.MatrixMatrixMultiply[T](bg, a, o, nil, m)
			gb.MatrixMatrixMultiply[T](bg, a, o, nil, f)
		}
		same(m, f)
	}
}

// phases writes and removes many elements in several phases, each in one of several orders.
func phases[T Num](c sym.Cfg, after func(m gb.Matrix[T], model [][]T)) {
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	m := empty[T](kind, R, C)
	model := zeros[T](R, C)
	n := R * C
	orders := []func(i int) int{
		func(i int) int { return i },
		func(i int) int { return n - 1 - i },
		func(i int) int { return i * 7 % n }, // n is no multiple of seven
	}
	for k := 0; k < c.N[2]; k++ {
		what, order := sym.Choose(7), 0
		if what < 4 {
			order = sym.Choose(len(orders))
		}
		put := func(i int, v T) {
			r, c := i/C, i%C
			set(m, r, c, v, k+r+c)
			model[r][c] = v
		}
		switch what {
		case 0: // everything
			for i := 0; i < n; i++ {
				put(orders[order](i), nonzero[T]("v"))
			}
		case 1: // every third
			for i := 0; i < n; i++ {
				if j := orders[order](i); j%3 == k%3 {
					put(j, nonzero[T]("v"))
				}
			}
		case 2: // removes all but every fourth
			for i := 0; i < n; i++ {
				if j := orders[order](i); j%4 != 1 {
					put(j, 0)
				}
			}
		case 3: // removes everything
			for i := 0; i < n; i++ {
				put(orders[order](i), 0)
			}
		case 4:
			m.Clear()
			model = zeros[T](R, C)
		case 5: // maps every other element to zero, the rest to something else
			for it := m.Map(); it.HasNext(); {
				it.Map(func(r, c int, _ T) T {
					model[r][c] = 0
					if (r*C+c)%2 == 0 {
						model[r][c] = nonzero[T]("f")
					}
					return model[r][c]
				})
			}
		case 6:
			m = m.Copy()
		}
		after(m, model)
	}
	observe[T](m)
}

// phaseJobs gives the jobs of fn with larger containers and longer histories.
func phaseJobs(fn, what string) func(thorough bool) []Job {
	return func(thorough bool) []Job {
		var l []Job
		for _, k := range allKinds {
			r, c, n := 4, 4, 2
			if isVec(k) {
				r, c = 23, 1
			}
			if sparse(k) {
				n = 3
			}
			if thorough {
				r, n = r+1, 3
			}
			l = append(l, mk(fn, "phases", "int8", []string{k}, false, "phases (last size) of writing all cells or every third, removing all or most, mapping, clearing, copying, each in one of three orders, arbitrary non-zero values; after each phase "+what, r, c, n))
		}
		return l
	}
}

func init() {
	more("C01", phaseJobs("C01", "all cells are read"))
	more("C03", phaseJobs("C03", "one full enumeration"))
}
