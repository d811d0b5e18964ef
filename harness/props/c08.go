package props

import (
	gb "github.com/rossmerr/graphblas"

	"verif/harness/sym"
)

func init() {
	Registry["C08"] = C08
	Registry["C09"] = C09
	jobsOf["C08"] = func(thorough bool) []Job {
		var l []Job
		what := "arbitrary operands (r x k times k x c), arbitrary non-zero stale destination"
		for _, k := range combos(matKinds, 3) {
			for _, s := range [][3]int{{2, 2, 1}, {1, 2, 2}, {2, 1, 2}} {
				l = append(l, mk("C08", "func", "int8", k, false, what, s[0], s[1], s[2]))
			}
			l = append(l, mk("C08", "func", "float64", k, true, what, 1, 2, 1))
			if thorough {
				l = append(l, mk("C08", "func", "int8", k, false, what, 2, 2, 2), mk("C08", "func", "float64", k, true, what, 2, 2, 1), mk("C08", "func", "uint16", k, false, what, 1, 3, 1))
			}
		}
		l = append(l, mk("C08", "func", "int8", []string{"dense", "dense", "dense"}, false, what, 3, 3, 3), mk("C08", "func", "int64", []string{"dense", "dense", "dense"}, false, what, 2, 3, 2))
		for _, k := range combos(matKinds, 2) {
			l = append(l, mk("C08", "method", "int8", k, false, "arbitrary operands", 2, 2, 1), mk("C08", "method", "int8", k, false, "arbitrary operands", 1, 2, 2), mk("C08", "method", "uint8", k, false, "arbitrary operands", 2, 1, 2))
			if thorough {
				l = append(l, mk("C08", "method", "int8", k, false, "arbitrary operands", 2, 2, 2))
			}
		}
		for _, v := range vecKinds {
			for _, m := range matKinds {
				l = append(l, mk("C08", "method", "int8", []string{v, m}, false, "arbitrary operands", 2, 1, 2), mk("C08", "method", "int8", []string{m, v}, false, "arbitrary operands", 2, 2, 1))
			}
			for _, w := range vecKinds {
				l = append(l, mk("C08", "method", "int8", []string{v, w}, false, "arbitrary operands", 3, 1, 1))
			}
		}
		what = "patterns of stored cells; one arbitrary value among constants in each operand, arbitrary non-zero stale destination"
		for i, k := range combos(matKinds, 3) {
			shapes := [][3]int{{4, 5, 4}, {2, 9, 3}, {7, 2, 7}}
			if thorough {
				shapes = append(shapes, [3]int{6, 6, 6}, [3]int{8, 3, 8}, [3]int{1, 16, 1})
			} else {
				shapes = shapes[i%3 : i%3+1]
			}
			for _, s := range shapes {
				l = append(l, mk("C08", "pat", "int16", k, false, what, s[0], s[1], s[2]))
			}
		}
		for _, k := range combos(matKinds, 2) {
			l = append(l, mk("C08", "method-pat", "int16", k, false, what, 5, 4, 5), mk("C08", "method-long", "int16", k, false, "three patterns of stored cells with long rows and columns; one arbitrary value among constants in each operand", 1, 39, 2))
			k = append(append([]string(nil), k...), matKinds[len(l)%3])
			l = append(l, mk("C08", "long", "int16", k, false, "three patterns of stored cells with long rows and columns; one arbitrary value among constants in each operand, arbitrary non-zero stale destination", 2, 21, 1))
			if thorough {
				l = append(l, mk("C08", "long", "int16", k, false, "three patterns of stored cells with long rows and columns; one arbitrary value among constants in each operand, arbitrary non-zero stale destination", 1, 77, 1))
			}
		}
		for _, k := range combos(matKinds, 2) {
			l = append(l, mk("C08", "square", "int8", k, false, "one container as both operands", 2, 2, 2))
			if thorough {
				l = append(l, mk("C08", "square", "float64", k, true, "one container as both operands", 2, 2, 2))
			}
		}
		for _, typ := range allNums {
			l = append(l, mk("C08", "func", typ, []string{"dense", "dense", "dense"}, false, "arbitrary operands", 1, 2, 1), mk("C08", "func", typ, []string{"csr", "csc", "csr"}, false, "arbitrary operands", 1, 1, 1))
		}
		return l
	}
	jobsOf["C09"] = func(thorough bool) []Job {
		var l []Job
		what := "arbitrary matrix and vector, arbitrary non-zero stale destination"
		for _, op := range []string{"mxv", "vxm"} {
			for _, m := range matKinds {
				for _, v := range combos(vecKinds, 2) {
					k := []string{m, v[0], v[1]}
					l = append(l, mk("C09", op, "int8", k, false, what, 2, 2), mk("C09", op, "int8", k, false, what, 3, 1), mk("C09", op, "int8", k, false, what, 1, 3))
					l = append(l, mk("C09", op, "float64", k, true, what, 1, 2))
					if thorough {
						l = append(l, mk("C09", op, "int8", k, false, what, 2, 3), mk("C09", op, "int8", k, false, what, 3, 2), mk("C09", op, "float64", k, true, what, 2, 2))
					}
					l = append(l, mk("C09", op+"-long", "int16", k, false, "three patterns of stored cells with long rows; one arbitrary value among constants in each operand, arbitrary non-zero stale destination", 2, 39), mk("C09", op+"-long", "int16", k, false, "three patterns of stored cells with long columns; one arbitrary value among constants in each operand, arbitrary non-zero stale destination", 39, 2))
					for _, s := range [][2]int{{5, 5}, {3, 11}, {11, 3}} {
						l = append(l, mk("C09", op+"-pat", "int16", k, false, "patterns of stored cells; one arbitrary value among constants in each operand, arbitrary non-zero stale destination", s[0], s[1]))
					}
				}
			}
			for _, typ := range allNums {
				l = append(l, mk("C09", op, typ, []string{"dense", "dvec", "dvec"}, false, "arbitrary operands", 1, 2), mk("C09", op, typ, []string{"csr", "svec", "svec"}, false, "arbitrary operands", 1, 1))
			}
		}
		return l
	}
}

func C08(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c08[int8](c)
	case "int16":
		c08[int16](c)
	case "int32":
		c08[int32](c)
	case "int64":
		c08[int64](c)
	case "int":
		c08[int](c)
	case "uint8":
		c08[uint8](c)
	case "uint16":
		c08[uint16](c)
	case "uint32":
		c08[uint32](c)
	case "uint64":
		c08[uint64](c)
	case "uint":
		c08[uint](c)
	case "uintptr":
		c08[uintptr](c)
	case "float32":
		c08[float32](c)
	case "float64":
		c08[float64](c)
	}
}

// stale fills a container with arbitrary non-zero values.
func stale[T Num](kind string, r, c int) (gb.Matrix[T], [][]T) {
	g := rows[T](r, c)
	m := empty[T](kind, r, c)
	for i := range g {
		g[i] = make([]T, c)
		for j := range g[i] {
			x := sym.Val[T]("stale")
			sym.Assume(sym.And(sym.Finite(x), x != 0))
			g[i][j] = x
			m.Set(i, j, x)
		}
	}
	return m, g
}

func product[T Num](x, y [][]T) [][]T {
	z := zeros[T](len(x), width(y))
	for i := range z {
		for j := range z[i] {
			for l := range y {
				z[i][j] += x[i][l] * y[l][j]
			}
		}
	}
	return z
}

func c08[T Num](c sym.Cfg) {
	r, k, cc := c.N[0], c.N[1], c.N[2]
	op, pat := cut(c.Op, "-pat")
	op, long := cut(op, "-long")
	var x, y [][]T
	switch {
	case c.Op == "square":
		x = grid[T]("a", r, k)
		a, d := build(c.Kind[0], x), empty[T](c.Kind[1], r, k)
		gb.MatrixMatrixMultiply(bg, a, a, nil, d)
		holds[T](d, product(x, x), "element of the square")
		holds[T](a, x, "operand of the square")
		return
	case c.Op == "pat" || pat:
		x, y = patternPair[T](r, k, cc)
	case long || c.Op == "long":
		x, y = longPair[T](r, k, cc)
	default:
		x, y = grid[T]("a", r, k), grid[T]("b", k, cc)
	}
	a, b := build(c.Kind[0], x), build(c.Kind[1], y)
	if op == "method" {
		z := a.Multiply(b)
		holds[T](z, product(x, y), "element of the product")
		observe[T](z)
		return
	}
	dst, _ := stale[T](c.Kind[2], r, cc)
	gb.MatrixMatrixMultiply(bg, a, b, nil, dst)
	holds[T](dst, product(x, y), "element of the product")
	observe[T](dst)
}

// patternPair draws two patterns, each with one arbitrary value, the constants being small.
func patternPair[T Num](r, k, c int) (x, y [][]T) {
	n := len(patterns)
	p := sym.Choose(n)
	q := []int{0, (p + 3) % n, (p*5 + 4) % n}[sym.Choose(3)]
	return constantWith[T]("a", r, k, p, 1+p, 1), constantWith[T]("b", k, c, q, 2+p, 1)
}

// longPair draws two of three patterns for a long inner dimension, each with one arbitrary value.
func longPair[T Num](r, k, c int) (x, y [][]T) {
	p := []int{0, 3, 8}
	return constantWith[T]("a", r, k, p[sym.Choose(3)], 1, 1), constantWith[T]("b", k, c, p[sym.Choose(3)], 2, 1)
}

func C09(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c09[int8](c)
	case "int16":
		c09[int16](c)
	case "int32":
		c09[int32](c)
	case "int64":
		c09[int64](c)
	case "int":
		c09[int](c)
	case "uint8":
		c09[uint8](c)
	case "uint16":
		c09[uint16](c)
	case "uint32":
		c09[uint32](c)
	case "uint64":
		c09[uint64](c)
	case "uint":
		c09[uint](c)
	case "uintptr":
		c09[uintptr](c)
	case "float32":
		c09[float32](c)
	case "float64":
		c09[float64](c)
	}
}

func c09[T Num](c sym.Cfg) {
	r, k := c.N[0], c.N[1]
	op, pat := cut(c.Op, "-pat")
	var x, y [][]T
	op, long := cut(op, "-long")
	if pat {
		x, y = patternPair[T](r, k, 1)
	} else if long {
		x, y = longPair[T](r, k, 1)
	} else {
		x, y = grid[T]("m", r, k), grid[T]("v", k, 1)
	}
	m, v := build(c.Kind[0], x), build(c.Kind[1], y).(gb.Vector[T])
	d, _ := stale[T](c.Kind[2], r, 1)
	dst := d.(gb.Vector[T])
	if op == "mxv" {
		gb.MatrixVectorMultiply(bg, m, v, nil, dst)
	} else {
		gb.VectorMatrixMultiply(bg, v, m, nil, dst)
	}
	holds[T](dst, product(x, y), "element of the matrix-vector product")
	observe[T](dst)
}
