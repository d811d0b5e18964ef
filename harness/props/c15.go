package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"

	"verif/harness/sym"
)

func init() {
	Registry["C15"] = C15
	Registry["C16"] = C16
	jobsOf["C15"] = func(thorough bool) []Job {
		var l []Job
		what := "arbitrary contents, arbitrary operator given by its results on the elements"
		for _, typ := range []string{"int8", "float64"} {
			shapes := [][2]int{{2, 2}, {1, 3}, {3, 1}}
			if thorough {
				shapes = append(shapes, [2]int{2, 3}, [2]int{3, 2})
			}
			for _, k := range matKinds {
				for _, d := range allKinds {
					for _, s := range shapes {
						if isVec(d) && s[1] != 1 {
							continue
						}
						l = append(l, mk("C15", "into", typ, []string{k, d}, true, what+"; cleared destination", s[0], s[1]))
					}
				}
			}
			for _, k := range vecKinds {
				for _, d := range allKinds {
					l = append(l, mk("C15", "into", typ, []string{k, d}, true, what+"; cleared destination", 4, 1))
				}
			}
			for _, k := range allKinds {
				for _, s := range append(shapes, [2]int{4, 1}) {
					if isVec(k) && s[1] != 1 {
						continue
					}
					l = append(l, mk("C15", "inplace", typ, []string{k}, true, what+"; in place", s[0], s[1]))
				}
			}
		}
		what = "patterns of stored cells, two arbitrary values among constants, arbitrary operator given by its results on two constants, the arbitrary values and everything else"
		for _, k := range allKinds {
			for i, s := range bigShapes(k, thorough) {
				l = append(l, mk("C15", "inplace-pat", "int8", []string{k}, false, what+"; in place", s[0], s[1]))
				ds := matKinds
				if isVec(k) {
					ds = allKinds
				}
				for j, d := range ds {
					if thorough || (i+j)%2 == 0 || isVec(k) {
						l = append(l, mk("C15", "into-pat", "int8", []string{k, d}, false, what+"; cleared destination", s[0], s[1]))
					}
				}
			}
		}
		what = "arbitrary contents, arbitrary operator given by its results on the elements"
		for _, typ := range []string{"int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint", "uintptr"} {
			for _, k := range allKinds {
				l = append(l, mk("C15", "inplace", typ, []string{k}, false, what+"; in place", 1, 1))
			}
		}
		for _, typ := range []string{"uint64", "float32"} {
			for _, k := range allKinds {
				l = append(l, mk("C15", "inplace", typ, []string{k}, true, what+"; in place", 2, 1), mk("C15", "into", typ, []string{k, "csr"}, true, what+"; in place", 2, 1))
			}
		}
		return l
	}
	jobsOf["C16"] = func(thorough bool) []Job {
		var l []Job
		ops := []string{"add", "max", "min", "sub", "mult"}
		for _, k := range allKinds {
			for i, op := range ops {
				for _, s := range [][2]int{{2, 2}, {1, 3}, {3, 1}} {
					if isVec(k) && s[1] != 1 {
						continue
					}
					if s[1] == 3 && i > 1 && !thorough {
						continue
					}
					if op == "mult" && s[0]*s[1] == 4 && !thorough {
						s = [2]int{2, 1}
					}
					l = append(l, mk("C16", op, "int8", []string{k}, false, "arbitrary contents and identity; all interleavings", s[0], s[1]))
				}
				l = append(l, mk("C16", op, "float64", []string{k}, true, "arbitrary contents and identity; all interleavings", 2, 1))
				if thorough && (op == "add" || op == "sub") {
					if isVec(k) {
						l = append(l, mk("C16", op, "int8", []string{k}, false, "arbitrary contents and identity; all interleavings", 6, 1))
					} else {
						l = append(l, mk("C16", op, "int8", []string{k}, false, "arbitrary contents and identity; all interleavings", 2, 3), mk("C16", op, "int8", []string{k}, false, "arbitrary contents and identity; all interleavings", 3, 2))
					}
				}
			}
			r, c := shape(k, 2, 2)
			for _, typ := range []string{"int8", "uint16", "float64"} {
				l = append(l, mk("C16", "default-scalar", typ, []string{k}, true, "arbitrary contents; all interleavings", r, c))
				if !isVec(k) {
					l = append(l, mk("C16", "default-vector", typ, []string{k}, true, "arbitrary contents; all interleavings", 2, 2), mk("C16", "default-vector", typ, []string{k}, true, "arbitrary contents; all interleavings", 1, 2), mk("C16", "default-vector", typ, []string{k}, true, "arbitrary contents; all interleavings", 3, 1))
				}
			}
			if !isVec(k) {
				for _, op := range ops[:4] {
					l = append(l, mk("C16", "vector-"+op, "int8", []string{k}, false, "arbitrary contents and identity; all interleavings", 2, 2))
				}
				l = append(l, mk("C16", "vector-add", "int8", []string{k}, false, "arbitrary contents and identity; all interleavings", 1, 3), mk("C16", "vector-sub", "int8", []string{k}, false, "arbitrary contents and identity; all interleavings", 3, 1))
				if thorough {
					l = append(l, mk("C16", "vector-add", "int8", []string{k}, false, "arbitrary contents and identity; all interleavings", 3, 2), mk("C16", "vector-max", "int8", []string{k}, false, "arbitrary contents and identity; all interleavings", 2, 3))
				}
			}
		}
		what := "patterns of stored cells, one arbitrary value among constants, arbitrary identity; default schedule"
		for _, k := range allKinds {
			for i, op := range ops {
				for j, s := range bigShapes(k, thorough) {
					if !thorough && i != j && i != 4-j {
						continue
					}
					q := mk("C16", op+"-pat", "int16", []string{k}, false, what, s[0], s[1])
					q.Cfg.Preempt = 0
					l = append(l, q)
					if !isVec(k) && op != "mult" {
						q := mk("C16", "vector-"+op+"-pat", "int16", []string{k}, false, what, s[0], s[1])
						q.Cfg.Preempt = 0
						l = append(l, q)
					}
				}
			}
		}
		for _, typ := range allNums {
			l = append(l, mk("C16", "default-scalar", typ, []string{"svec"}, true, "arbitrary contents; all interleavings", 2, 1), mk("C16", "default-vector", typ, []string{"dense"}, true, "arbitrary contents; all interleavings", 2, 1))
		}
		for _, op := range ops {
			l = append(l, mk("C16", "channel-"+op, "int8", []string{"-"}, false, "the monoid's own reduction fed directly; all interleavings", 3))
		}
		return l
	}
}

func C15(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c15[int8](c)
	case "int16":
		c15[int16](c)
	case "int32":
		c15[int32](c)
	case "int64":
		c15[int64](c)
	case "int":
		c15[int](c)
	case "uint8":
		c15[uint8](c)
	case "uint16":
		c15[uint16](c)
	case "uint32":
		c15[uint32](c)
	case "uint":
		c15[uint](c)
	case "uintptr":
		c15[uintptr](c)
	case "uint64":
		c15[uint64](c)
	case "float32":
		c15[float32](c)
	case "float64":
		c15[float64](c)
	}
}

func c15[T Num](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	op, pat := cut(c.Op, "-pat")
	var x [][]T
	var t *table[T]
	if pat {
		x = constantWith[T]("a", R, C, somePattern(R, C), 1, 2)
		t = newTable([]T{3, 5})
	} else {
		x = grid[T]("a", R, C)
		t = newTable(flatten(x))
	}
	a := build(c.Kind[0], x)
	want := zeros[T](R, C)
	for i := range want {
		for j := range want[i] {
			want[i][j] = t.at(x[i][j])
			if sparse(c.Kind[0]) {
				want[i][j] = sym.Ite(x[i][j] == 0, 0, want[i][j])
			}
		}
	}
	d := a
	if op == "into" {
		d = empty[T](c.Kind[1], R, C)
	}
	gb.Apply(bg, a, nil, t.op(), d)
	holds[T](d, want, "op(element)")
	if op == "into" {
		holds[T](a, x, "source of the application")
	}
	observe[T](d)
}

func C16(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c16[int8](c)
	case "int16":
		c16[int16](c)
	case "int32":
		c16[int32](c)
	case "int64":
		c16[int64](c)
	case "int":
		c16[int](c)
	case "uint8":
		c16[uint8](c)
	case "uint16":
		c16[uint16](c)
	case "uint32":
		c16[uint32](c)
	case "uint64":
		c16[uint64](c)
	case "uint":
		c16[uint](c)
	case "uintptr":
		c16[uintptr](c)
	case "float32":
		c16[float32](c)
	case "float64":
		c16[float64](c)
	}
}

// fold is the operation written without branches.
func fold[T Num](op string, a, b T) T {
	switch op {
	case "add":
		return a + b
	case "sub":
		return a - b
	case "mult":
		return a * b
	case "max":
		return sym.Ite(a > b, a, b)
	}
	return sym.Ite(a < b, a, b)
}

func monoid[T Num](op string, unit T) binaryop.MonoID[T] {
	var o binaryop.BinaryOp[T]
	switch op {
	case "add":
		o = binaryop.Addition[T]()
	case "sub":
		o = binaryop.Subtraction[T]()
	case "mult":
		o = binaryop.Multiplication[T]()
	case "max":
		o = binaryop.Maximum[T]()
	default:
		o = binaryop.Minimum[T]()
	}
	return binaryop.NewMonoID(unit, o)
}

func c16[T Num](c sym.Cfg) {
	sym.NoLeaks()
	if len(c.Op) > 8 && c.Op[:8] == "channel-" {
		c16channel[T](c, c.Op[8:])
		return
	}
	R, C := c.N[0], c.N[1]
	op, pat := cut(c.Op, "-pat")
	var x [][]T
	if pat {
		x = constantWith[T]("a", R, C, somePattern(R, C), 1, 1)
	} else {
		x = grid[T]("a", R, C)
	}
	a := build(c.Kind[0], x)
	unit := T(0)
	switch op {
	case "default-scalar":
		op = "add"
	case "default-vector":
		op = "max"
	default:
		unit = vals[T]("unit", 1)[0]
	}
	if len(op) > 7 && op[:7] == "vector-" {
		op = op[7:]
	}
	// a sparse container folds its stored elements only; the element 0 is not one of them
	step := func(acc, v T) T {
		r := fold(op, acc, v)
		if sparse(c.Kind[0]) {
			r = sym.Ite(v == 0, acc, r)
		}
		return r
	}
	if c.Op == "default-vector" || len(c.Op) > 7 && c.Op[:7] == "vector-" {
		var v gb.Vector[T]
		if c.Op == "default-vector" {
			v = gb.ReduceMatrixToVector[T](bg, a)
		} else {
			v = gb.ReduceMatrixToVectorWithMonoID[T](bg, a, monoid(op, unit), nil)
		}
		sym.Assert(v.Length() == C, "length of the reduction")
		for j := 0; j < C; j++ {
			want := unit
			for i := range x {
				want = step(want, x[i][j])
			}
			sym.Assert(sym.Same(v.AtVec(j), want), "fold of the column")
			sym.Observe(v.AtVec(j))
		}
		holds[T](a, x, "operand of the reduction")
		return
	}
	want := unit
	for i := range x {
		for j := range x[i] {
			want = step(want, x[i][j])
		}
	}
	var got T
	if c.Op == "default-scalar" {
		if isVec(c.Kind[0]) && sym.Choose(2) == 0 {
			got = gb.ReduceVectorToScalar[T](bg, a.(gb.Vector[T]), nil)
		} else {
			got = gb.ReduceMatrixToScalar[T](bg, a, nil)
		}
	} else if isVec(c.Kind[0]) && sym.Choose(2) == 0 {
		got = gb.ReduceVectorToScalarWithMonoID[T](bg, a.(gb.Vector[T]), monoid(op, unit), nil)
	} else {
		got = gb.ReduceMatrixToScalarWithMonoID[T](bg, a, monoid(op, unit), nil)
	}
	sym.Assert(sym.Same(got, want), "fold of the elements")
	sym.Observe(got)
	holds[T](a, x, "operand of the reduction")
}

// c16channel feeds the monoid's reduction from the caller, the way the library's own test does.
func c16channel[T Num](c sym.Cfg, op string) {
	x := vals[T]("x", c.N[0])
	unit := vals[T]("unit", 1)[0]
	m := monoid(op, unit)
	sym.Assert(sym.Same(m.Zero(), unit), "identity of the monoid")
	done := make(chan struct{})
	slice := make(chan T)
	out := m.Reduce(done, slice)
	want := unit
	n := sym.Choose(len(x) + 1)
	for i := 0; i < n; i++ {
		slice <- x[i]
		want = fold(op, want, x[i])
	}
	if sym.Choose(2) == 0 {
		done <- struct{}{}
	} else {
		close(done)
	}
	got, ok := <-out
	sym.Assert(sym.And(ok, sym.Same(got, want)), "fold of the elements sent")
	_, ok = <-out
	sym.Assert(!ok, "one result only")
}
