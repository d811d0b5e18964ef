package props

import (
	gb "github.com/rossmerr/graphblas"

	"verif/harness/sym"
)

func init() {
	Registry["C19"] = C19
	Registry["C20"] = C20
	jobsOf["C19"] = func(thorough bool) []Job {
		var l []Job
		what := "every program of the given number of operations, arbitrary contents and arguments (in programs of more than one operation the factors of products are constants)"
		for _, s := range [][3]int{{1, 2, 2}, {2, 1, 2}, {2, 2, 1}} {
			l = append(l, mk("C19", "", "int8", []string{"dense", "csr", "csc"}, false, what+" (rows, columns, operations)", s[0], s[1], s[2]))
		}
		l = append(l, mk("C19", "", "int8", []string{"dvec", "svec"}, false, what+" (rows, columns, operations)", 2, 1, 2), mk("C19", "", "int8", []string{"dvec", "svec"}, false, what+" (rows, columns, operations)", 3, 1, 1))
		l = append(l, mk("C19", "", "float64", []string{"dense", "csr", "csc"}, true, what+" (rows, columns, operations)", 1, 2, 1))
		for _, typ := range []string{"float64", "float32"} {
			l = append(l, mk("C19", "nan", typ, []string{"dense", "csr", "csc"}, false, "every program of the given number of writes, updates, clears, maps, copies and transpositions; arbitrary IEEE contents and arguments, NaN and infinities included (rows, columns, operations)", 2, 1, 2), mk("C19", "nan", typ, []string{"dvec", "svec"}, false, "every program of the given number of writes, updates, clears, maps, copies and transpositions; arbitrary IEEE contents and arguments, NaN and infinities included (rows, columns, operations)", 2, 1, 2))
		}
		for _, s := range [][2]int{{4, 4}, {2, 7}} {
			l = append(l, mk("C19", "pat", "int8", []string{"dense", "csr", "csc"}, false, "patterns of stored cells with one arbitrary value among constants, every program of one operation (rows, columns, operations)", s[0], s[1], 1))
		}
		l = append(l, mk("C19", "pat", "int8", []string{"dvec", "svec"}, false, "patterns of stored cells with one arbitrary value among constants, every program of one operation (rows, columns, operations)", 12, 1, 1))
		for _, typ := range []string{"int64", "uint64", "uint8", "float32"} {
			l = append(l, mk("C19", "", typ, []string{"dense", "csr", "csc"}, false, what+" (rows, columns, operations)", 1, 1, 1), mk("C19", "", typ, []string{"dvec", "svec"}, false, what+" (rows, columns, operations)", 1, 1, 1))
		}
		if thorough {
			l = append(l, mk("C19", "pat", "int8", []string{"dense", "csr", "csc"}, false, "patterns of stored cells with one arbitrary value among constants, every program of two operations (rows, columns, operations)", 3, 4, 2))
			l = append(l, mk("C19", "", "int8", []string{"dense", "csr", "csc"}, false, what+" (rows, columns, operations)", 2, 2, 2), mk("C19", "", "int8", []string{"dense", "csr", "csc"}, false, what+" (rows, columns, operations)", 1, 2, 3),
				mk("C19", "", "int8", []string{"dense", "csr", "csc"}, false, what+" (rows, columns, operations)", 2, 3, 1), mk("C19", "", "int8", []string{"dvec", "svec"}, false, what+" (rows, columns, operations)", 2, 1, 3))
		}
		return l
	}
	jobsOf["C20"] = func(thorough bool) []Job {
		var l []Job
		for _, k := range []string{"csr", "csc"} {
			for _, s := range [][3]int{{2, 2, 1}, {2, 2, 2}, {2, 3, 1}, {3, 2, 1}, {1, 5, 1}, {5, 1, 1}} {
				l = append(l, mk("C20", "", "int8", []string{k}, false, "arbitrary contents, every sequence of pointer-returning writes (rows, columns, writes)", s[0], s[1], s[2]))
			}
			l = append(l, mk("C20", "", "float64", []string{k}, false, "arbitrary contents including NaN, every sequence of pointer-returning writes (rows, columns, writes)", 2, 2, 1))
			for _, s := range bigShapes(k, thorough) {
				l = append(l, mk("C20", "pat", "int8", []string{k}, false, itoa(len(patterns))+" patterns of stored cells with arbitrary non-zero values, every pointer-returning write (rows, columns, writes)", s[0], s[1], 1))
			}
			for _, typ := range allNums {
				l = append(l, mk("C20", "", typ, []string{k}, false, "arbitrary contents, every sequence of pointer-returning writes (rows, columns, writes)", 1, 2, 1))
			}
			if thorough {
				for _, s := range [][3]int{{2, 2, 3}, {3, 3, 1}, {2, 3, 2}, {3, 2, 2}, {1, 6, 2}} {
					l = append(l, mk("C20", "", "int8", []string{k}, false, "arbitrary contents, every sequence of pointer-returning writes (rows, columns, writes)", s[0], s[1], s[2]))
				}
			}
		}
		return l
	}
}

func C19(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c19[int8](c)
	case "int16":
		c19[int16](c)
	case "int32":
		c19[int32](c)
	case "int64":
		c19[int64](c)
	case "int":
		c19[int](c)
	case "uint8":
		c19[uint8](c)
	case "uint16":
		c19[uint16](c)
	case "uint32":
		c19[uint32](c)
	case "uint64":
		c19[uint64](c)
	case "uint":
		c19[uint](c)
	case "uintptr":
		c19[uintptr](c)
	case "float32":
		c19[float32](c)
	case "float64":
		c19[float64](c)
	}
}

func c19[T Num](c sym.Cfg) {
	R, C, n := c.N[0], c.N[1], c.N[2]
	nan, pat := c.Op == "nan", c.Op == "pat"
	var x [][]T
	switch {
	case nan:
		x = gridAny[T]("a", R, C)
	case pat:
		x = constantWith[T]("a", R, C, somePattern(R, C), 1, 1)
	default:
		x = grid[T]("a", R, C)
	}
	arg := func(name string) T {
		if nan {
			return sym.Val[T](name)
		}
		return vals[T](name, 1)[0]
	}
	ms := make([]gb.Matrix[T], len(c.Kind))
	for i, k := range c.Kind {
		ms[i] = build(k, x)
	}
	compare := func(what string) {
		ref := ms[0]
		for i := 1; i < len(ms); i++ {
			m := ms[i]
			sym.Assert(m.Rows() == ref.Rows() && m.Columns() == ref.Columns(), what+": dimensions agree")
			for r := 0; r < ref.Rows(); r++ {
				for q := 0; q < ref.Columns(); q++ {
					sym.Assert(sym.Same(m.At(r, q), ref.At(r, q)), what+": the formats agree")
				}
			}
			if nan {
				continue // a container with a NaN does not equal itself
			}
			sym.Assert(m.Equal(ref), what+": the formats compare equal")
			sym.Assert(ref.Equal(m), what+": the formats compare equal (reversed)")
		}
	}
	vec := isVec(c.Kind[0])
	for s := 0; s < n; s++ {
		rows, cols := ms[0].Rows(), ms[0].Columns()
		ops := 11
		if vec && s == n-1 {
			ops = 12 // transposition and product of a vector are matrices: last step only
		}
		var op int
		if nan {
			op = []int{0, 1, 2, 3, 4, 8, 9}[sym.Choose(7)]
		} else {
			op = sym.Choose(ops)
		}
		if vec && s < n-1 && op >= 9 {
			op = 0
		}
		switch op {
		case 0:
			i, j, v := sym.Choose(rows), sym.Choose(cols), arg("v")
			for _, m := range ms {
				m.Set(i, j, v)
			}
			compare("set")
		case 1:
			i, j, v, w := sym.Choose(rows), sym.Choose(cols), arg("v"), arg("w")
			for _, m := range ms {
				m.Update(i, j, func(o T) T {
					if nan {
						return sym.Ite(o == v, T(0), w)
					}
					return sym.Ite(o == v, 0, o+w)
				})
			}
			compare("update")
		case 2:
			for _, m := range ms {
				m.Clear()
			}
			compare("clear")
		case 3:
			v, w := arg("v"), arg("w")
			for _, m := range ms {
				for it := m.Map(); it.HasNext(); {
					it.Map(func(i, j int, o T) T {
						if nan {
							return sym.Ite(o == 0, 0, sym.Ite(o == v, T(0), w))
						}
						return sym.Ite(o == 0, 0, sym.Ite(o == v, 0, o+w+T(i+2*j)))
					})
				}
			}
			compare("map")
		case 4:
			for i, m := range ms {
				ms[i] = m.Copy()
			}
			compare("copy")
		case 5, 6:
			var y [][]T
			if pat {
				y = constantWith[T]("b", rows, cols, 4, 2, 1)
			} else {
				y = grid[T]("b", rows, cols)
			}
			for i, m := range ms {
				b := build(c.Kind[(i+1)%len(c.Kind)], y)
				if op == 5 {
					ms[i] = m.Add(b)
				} else {
					ms[i] = m.Subtract(b)
				}
			}
			// a sum has the format of its receiver, so that the lockstep goes on with three formats
			compare("sum or difference")
		case 7:
			var v T
			if n == 1 && !pat {
				v = vals[T]("alpha", 1)[0]
			} else {
				v = []T{0, 1, 3, 64}[sym.Choose(4)]
			}
			for i, m := range ms {
				ms[i] = m.Scalar(v)
			}
			compare("scalar product")
		case 8:
			for i, m := range ms {
				ms[i] = m.Negative().(gb.Matrix[T])
			}
			compare("negation")
		case 9:
			ts := make([]gb.MatrixLogical[T], len(ms))
			for i, m := range ms {
				ts[i] = m.Transpose()
			}
			ref := ts[0]
			for i := 1; i < len(ts); i++ {
				t := ts[i]
				sym.Assert(t.Rows() == cols && t.Columns() == rows && ref.Rows() == cols && ref.Columns() == rows, "transposition: dimensions agree")
				for r := 0; r < cols; r++ {
					for q := 0; q < rows; q++ {
						sym.Assert(sym.Same(t.At(r, q), ref.At(r, q)), "transposition: the formats agree")
					}
				}
				sym.Assert(nan || t.Equal(ref) && ref.Equal(t), "transposition: the formats compare equal")
			}
			if s == n-1 || vec {
				return
			}
			// the dense transposition is not a Matrix: go on with the transpositions in fresh containers
			for i := range ms {
				ms[i] = build(c.Kind[i], content(ts[i]))
			}
		case 10, 11:
			y := fixed[T](cols, 2, T(sym.Choose(2))) // with and without a zero element
			if n == 1 && !pat {
				y = grid[T]("b", cols, 2)
			}
			for i, m := range ms {
				b := build(matKinds[(i+1)%3], y)
				ms[i] = m.Multiply(b)
			}
			compare("product")
			if vec {
				return
			}
		}
	}
	observe[T](ms[0])
}

func C20(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c20[int8](c)
	case "int16":
		c20[int16](c)
	case "int32":
		c20[int32](c)
	case "int64":
		c20[int64](c)
	case "int":
		c20[int](c)
	case "uint8":
		c20[uint8](c)
	case "uint16":
		c20[uint16](c)
	case "uint32":
		c20[uint32](c)
	case "uint64":
		c20[uint64](c)
	case "uint":
		c20[uint](c)
	case "uintptr":
		c20[uintptr](c)
	case "float32":
		c20[float32](c)
	case "float64":
		c20[float64](c)
	}
}

func c20[T Num](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	var x [][]T
	if c.Op == "huge" {
		huge(c, func(m gb.Matrix[T], model [][]T, i, j int, v T, p int) {
			if p < 0 {
				return // a plain write
			}
			rank := 0
			for r := range model {
				for q := range model[r] {
					before := r < i || r == i && q < j
					if c.Kind[0] == "csc" {
						before = q < j || q == j && r < i
					}
					if before {
						rank += sym.Ite(model[r][q] != 0, 1, 0)
					}
				}
			}
			sym.Assert(sym.Implies(v != 0, p == rank), "the pointer is the rank of the element among the stored ones")
			holds[T](m, model, "contents after a pointer-returning write")
		})
		return
	}
	if c.Op == "pat" {
		x = pattern[T]("a", R, C, somePattern(R, C))
	} else if c.Typ == "float64" {
		x = gridAny[T]("a", R, C)
	} else {
		x = grid[T]("a", R, C)
	}
	m := build(c.Kind[0], x).(gb.MatrixCompressed[T])
	for s := 0; s < c.N[2]; s++ {
		i, j := index("row", R), index("column", C)
		v := sym.Val[T]("v")
		var p int
		if sym.Choose(2) == 0 {
			p, _ = m.SetReturnPointer(i, j, v)
		} else {
			old, calls := modelAt(x, i, j), 0
			p, _ = m.UpdateReturnPointer(i, j, func(o T) T {
				calls++
				sym.Assert(sym.Same(o, old), "the update sees the current value")
				return v
			})
			sym.Assert(calls == 1, "the update calls its function once")
		}
		modelSet(x, i, j, v)
		holds[T](m, x, "contents after a pointer-returning write")
		// rank of (i,j) among the stored elements
		rank := 0
		for r := range x {
			for q := range x[r] {
				before := sym.Or(r < i, sym.And(r == i, q < j))
				if c.Kind[0] == "csc" {
					before = sym.Or(q < j, sym.And(q == j, r < i))
				}
				rank += sym.Ite(sym.And(before, x[r][q] != 0), 1, 0)
			}
		}
		sym.Assert(sym.Implies(v != 0, p == rank), "the pointer is the rank of the element among the stored ones")
		n := 0
		for r := range x {
			for q := range x[r] {
				n += sym.Ite(x[r][q] != 0, 1, 0)
			}
		}
		sym.Assert(m.Values() == n, "number of stored elements after a pointer-returning write")
	}
}
