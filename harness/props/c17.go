package props

import (
	"context"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/strassen"
	bubble "github.com/rossmerr/graphblas/sort"

	"verif/harness/sym"
)

func init() {
	Registry["C17"] = C17
	jobsOf["C17"] = func(thorough bool) []Job {
		var l []Job
		what := "arbitrary operands and destination; context cancelled from its k-th poll on, every k"
		async := "arbitrary operands and destination; context cancelled by another goroutine at any moment"
		for _, op := range destOps {
			for i, k := range opCombos(op) {
				n := []int{1, 2, 2}
				if op == "emulv" || op == "eaddv" || op == "mxv" || op == "vxm" {
					n = []int{2, 1, 1}
				}
				l = append(l, mk("C17", op, "int8", append(k, "poll"), false, what, n...))
				if i%3 == 0 {
					l = append(l, mk("C17", op, "int8", append(k, "async"), false, async, n...))
				}
				if i%4 == 0 || thorough {
					l = append(l, mk("C17", op+"-pat", "int8", append(k, "poll"), false, "patterns of stored cells, constants; context cancelled from its k-th poll on, every k", 3, 3, 3))
				}
				if thorough {
					if numSparse(k) <= 1 {
						l = append(l, mk("C17", op, "int8", append(k, "poll"), false, what, 2, 2, 2), mk("C17", op, "int8", append(k, "async"), false, async, 2, 2, 2))
					}
					l = append(l, mk("C17", op, "int8", append(k, "async"), false, async, n...))
				}
				if (op == "emul" || op == "apply") && k[0] == k[2] {
					l = append(l, mk("C17", op+"-inplace", "int8", append(k, "poll"), false, what, 2, 2, 1), mk("C17", op+"-inplace", "int8", append(k, "async"), false, async, 1, 2, 2))
				}
			}
			a, b, d := opKinds(op)
			l = append(l, mk("C17", op, "int8", []string{a[0], b[0], d[0], "poll"}, false, what, 2, 2, 2))
		}
		for _, how := range []string{"poll", "async"} {
			w := what
			if how == "async" {
				w = async
			}
			for _, k := range allKinds {
				r, c := shape(k, 2, 2)
				l = append(l, mk("C17", "scalar", "int8", []string{k, "-", "-", how}, false, w, r, 1, c))
				l = append(l, mk("C17", "reduce", "int8", []string{k, "-", "-", how}, false, w+"; all interleavings", r, 1, c))
				l = append(l, mk("C17", "reduce-monoid", "int8", []string{k, "-", "-", how}, false, w+"; all interleavings", r, 1, c))
				if how == "async" {
					l[len(l)-1].Cfg.N = []int{2, 1, 1}
					l[len(l)-2].Cfg.N = []int{2, 1, 1}
				}
				for _, k2 := range []string{"dense", "csr", "dvec"} {
					if isVec(k2) != isVec(k) {
						continue
					}
					l = append(l, mk("C17", "equal", "int8", []string{k, k2, "-", how}, false, w, r, 1, c))
				}
				if !isVec(k) {
					l = append(l, mk("C17", "to-csr", "int8", []string{k, "-", "-", how}, false, w, 2, 1, 2), mk("C17", "to-csc", "int8", []string{k, "-", "-", how}, false, w, 2, 1, 2))
					j := mk("C17", "reduce-vector", "int8", []string{k, "-", "-", how}, false, w+"; all interleavings", 2, 1, 2)
					if how == "async" {
						j = mk("C17", "reduce-vector", "int8", []string{k, "-", "-", how}, false, w+"; at most 2 scheduling decisions off the default", 2, 1, 2)
						j.Cfg.Preempt = 2
					}
					l = append(l, j)
					l = append(l, mk("C17", "bfs", "uint8", []string{k, "-", "-", how}, false, w, 2, 1, 2))
					j = mk("C17", "strassen", "int8", []string{k, "dense", "-", how}, false, w+"; fixed operands, at most 1 scheduling decision off the default", 2, 1, 2)
					j.Cfg.Preempt = 1
					if thorough {
						j.Cfg.Preempt = 2
					}
					l = append(l, j)
					l = append(l, mk("C17", "strassen-direct", "int8", []string{k, "csr", "-", how}, false, w, 2, 1, 2))
				}
			}
			for _, op := range []string{"string", "compare", "rows", "columns"} {
				if op == "compare" && !thorough {
					l = append(l, mk("C17", op, "int32", []string{"dense", "dense", "-", how}, false, w, 1, 1, 2))
					continue
				}
				l = append(l, mk("C17", op, "int32", []string{"dense", "dense", "-", how}, false, w, 2, 1, 2))
			}
		}
		return l
	}
}

func C17(c sym.Cfg) {
	if runeOp(c.Op) {
		c17rune(c)
		return
	}
	switch c.Typ {
	case "int8":
		c17[int8](c)
	case "int16":
		c17[int16](c)
	case "int32":
		c17[int32](c)
	case "int64":
		c17[int64](c)
	case "int":
		c17[int](c)
	case "uint8":
		c17[uint8](c)
	case "uint16":
		c17[uint16](c)
	case "uint32":
		c17[uint32](c)
	case "uint64":
		c17[uint64](c)
	case "uint":
		c17[uint](c)
	case "uintptr":
		c17[uintptr](c)
	case "float32":
		c17[float32](c)
	case "float64":
		c17[float64](c)
	}
}

// cancelled is a context cancelled at an arbitrary moment, including before the first use and never.
func cancelled(how string, polls int) context.Context {
	if how == "async" {
		return cancelAsync()
	}
	return cancelAt(sym.Choose(polls+2) - 1)
}

func c17[T Num](c sym.Cfg) {
	sym.NoLeaks()
	how := c.Kind[3]
	op, inplace := cut(c.Op, "-inplace")
	switch op {
	case "scalar", "to-csr", "to-csc", "reduce", "reduce-monoid", "reduce-vector", "equal", "bfs", "strassen", "strassen-direct":
		c17other[T](c, op, how)
		return
	}
	op, pat := cut(op, "-pat")
	da, db, dd := opShape(op, c.N[0], c.N[1], c.N[2])
	var x, y [][]T
	var b gb.Matrix[T]
	n, p := len(patterns), 0
	if pat {
		p = sym.Choose(n)
		x = constantWith[T]("a", da.r, da.c, p, 1+p, 1)
		if !unary(op) {
			y = constant[T](db.r, db.c, (p*5+4)%n, 2)
			b = build(c.Kind[1], y)
		}
	} else {
		x = grid[T]("a", da.r, da.c)
		b, y = second[T](op, c.Kind[1], db)
	}
	a := build(c.Kind[0], x)
	t := newTable([]T{3, 5})
	if !pat {
		t = newTable(flatten(x))
	}
	prev, d := x, a
	if !inplace {
		if pat {
			prev = constant[T](dd.r, dd.c, (p*3+7)%n, 5)
		} else {
			prev = grid[T]("dst", dd.r, dd.c)
		}
		d = build(c.Kind[2], prev)
	}
	a2 := build(c.Kind[0], x)
	d2 := a2
	if !inplace {
		d2 = build(c.Kind[2], prev)
	}
	var b2 gb.Matrix[T]
	if b != nil {
		b2 = build(c.Kind[1], y)
	}
	runOp[T](bg, op, a2, b2, d2, nil, t.op())
	final := content[T](d2)

	polls := 2*dd.r*dd.c + 1
	if op == "mxm" || op == "mxv" || op == "vxm" {
		polls = dd.r*dd.c*da.c + 1
	}
	runOp[T](cancelled(how, polls), op, a, b, d, nil, t.op())

	sym.Assert(d.Rows() == dd.r && d.Columns() == dd.c, "dimensions after cancellation")
	for i := range final {
		for j := range final[i] {
			got := d.At(i, j)
			sym.Assert(sym.Or(sym.Same(got, prev[i][j]), sym.Same(got, final[i][j])), "destination element is at its previous or its final value")
		}
	}
	if !inplace {
		holds[T](a, x, "operand after cancellation")
	}
	if b != nil {
		holds[T](b, y, "operand after cancellation")
	}
}

func c17other[T Num](c sym.Cfg, op, how string) {
	R, C := c.N[0], c.N[2]
	var x [][]T
	if op == "strassen" {
		x = fixed[T](R, C, 1)
	} else {
		x = grid[T]("a", R, C)
	}
	a := build(c.Kind[0], x)
	either := func(z gb.MatrixLogical[T], p, f [][]T) {
		sym.Assert(z.Rows() == len(f) && z.Columns() == width(f), "dimensions after cancellation")
		for i := range f {
			for j := range f[i] {
				got := z.At(i, j)
				sym.Assert(sym.Or(sym.Same(got, p[i][j]), sym.Same(got, f[i][j])), "result element is at its previous or its final value")
			}
		}
	}
	switch op {
	case "scalar":
		alpha := sym.Val[T]("alpha")
		f := zeros[T](R, C)
		for i := range f {
			for j := range f[i] {
				f[i][j] = alpha * x[i][j]
			}
		}
		either(gb.Scalar(cancelled(how, R*C+1), a, alpha), x, f)
	case "to-csr", "to-csc":
		f := zeros[T](C, R)
		for i := range x {
			for j := range x[i] {
				f[j][i] = x[i][j]
			}
		}
		ctx := cancelled(how, R*C+1)
		if op == "to-csr" {
			either(gb.TransposeToCSR(ctx, a), zeros[T](C, R), f)
		} else {
			either(gb.TransposeToCSC(ctx, a), zeros[T](C, R), f)
		}
	case "reduce":
		if isVec(c.Kind[0]) && sym.Choose(2) == 0 {
			gb.ReduceVectorToScalar[T](cancelled(how, R*C+1), a.(gb.Vector[T]), nil)
		} else {
			gb.ReduceMatrixToScalar[T](cancelled(how, R*C+1), a, nil)
		}
	case "reduce-monoid":
		m := binaryop.NewMonoID(vals[T]("unit", 1)[0], binaryop.Minimum[T]())
		if isVec(c.Kind[0]) && sym.Choose(2) == 0 {
			gb.ReduceVectorToScalarWithMonoID[T](cancelled(how, R*C+1), a.(gb.Vector[T]), m, nil)
		} else {
			gb.ReduceMatrixToScalarWithMonoID[T](cancelled(how, R*C+1), a, m, nil)
		}
	case "reduce-vector":
		v := gb.ReduceMatrixToVector(cancelled(how, R*C+1), a)
		sym.Assert(v.Length() == C, "dimensions after cancellation")
	case "equal":
		y := grid[T]("b", R, C)
		b := build(c.Kind[1], y)
		if sym.Choose(2) == 0 {
			gb.Equal[T](cancelled(how, R*C+1), a, b)
		} else {
			gb.NotEqual[T](cancelled(how, R*C+1), a, b)
		}
		holds[T](b, y, "operand after cancellation")
	case "bfs":
		v := breadthfirst.Search(cancelled(how, R*(R*R+2*R)), a, sym.Choose(R), func(gb.Vector[T]) bool { return false })
		sym.Assert(v.Length() == R, "dimensions after cancellation")
	case "strassen", "strassen-direct":
		y := fixed[T](C, R, 5)
		if op == "strassen-direct" {
			y = grid[T]("b", C, R)
		}
		b := build(c.Kind[1], y)
		cross := 1
		if op == "strassen-direct" {
			cross = 2
		}
		z := strassen.MultiplyCrossoverPoint(cancelled(how, 10), a, b, cross)
		sym.Assert(z.Rows() == R && z.Columns() == R, "dimensions after cancellation")
		holds[T](b, y, "operand after cancellation")
	}
	holds[T](a, x, "operand after cancellation")
}

func c17rune(c sym.Cfg) {
	sym.NoLeaks()
	R, C := c.N[0], c.N[2]
	how := c.Kind[3]
	x, a := runes("a", R, C)
	switch c.Op {
	case "string":
		gb.String(cancelled(how, R*C+1), a)
	case "compare":
		_, b := runes("b", R, C)
		switch sym.Choose(3) {
		case 0:
			gb.Compare(cancelled(how, 4*R*C+3), a, b)
		case 1:
			gb.Less(cancelled(how, 2*R*C+1), a, b)
		default:
			gb.Greater(cancelled(how, 2*R*C+1), a, b)
		}
	case "rows":
		z := bubble.BubbleRow(cancelled(how, 3*C+3), a)
		sym.Assert(z.Rows() == R && z.Columns() == C, "dimensions after cancellation")
	case "columns":
		z := bubble.BubbleColumns(cancelled(how, 3*R+3), a)
		sym.Assert(z.Rows() == R && z.Columns() == C, "dimensions after cancellation")
	}
	holds[rune](a, x, "operand after cancellation")
}

// runes is a dense matrix of arbitrary valid code points.
func runes(name string, r, c int) ([][]rune, *gb.DenseMatrix[rune]) {
	m := gb.NewDenseMatrix[rune](r, c)
	g := make([][]rune, r)
	for i := range g {
		g[i] = make([]rune, c)
		for j := range g[i] {
			x := sym.Val[rune](name)
			sym.Assume(sym.Or(sym.And(x >= 0, x < 0xD800), sym.And(x > 0xDFFF, x <= 0x10FFFF)))
			g[i][j] = x
			m.Set(i, j, x)
		}
	}
	return g, m
}

func fixed[T Num](r, c int, from T) [][]T {
	g := zeros[T](r, c)
	for i := range g {
		for j := range g[i] {
			g[i][j] = from
			from++
		}
	}
	return g
}
