package props

import (
	"context"

	gb "github.com/rossmerr/graphblas"

	"verif/harness/sym"
)

func init() {
	for _, p := range []string{"C10", "C11", "C12", "C13"} {
		_ = p
	}
	Registry["C10"] = C10
	Registry["C11"] = C11
	Registry["C12"] = C12
	Registry["C13"] = C13
	jobsOf["C10"] = func(thorough bool) []Job {
		var l []Job
		what := "arbitrary operands, cleared destination"
		for _, op := range []string{"add", "sub"} {
			for _, k := range combos(matKinds, 3) {
				l = append(l, mk("C10", op, "int8", k, false, what, 2, 2))
				if thorough {
					l = append(l, mk("C10", op, "float64", k, true, what, 2, 2), mk("C10", op, "int8", k, false, what, 1, 5), mk("C10", op, "int8", k, false, what, 3, 2))
				} else {
					l = append(l, mk("C10", op, "float64", k, true, what, 1, 2))
				}
			}
			for _, k := range combos(vecKinds, 3) {
				l = append(l, mk("C10", op, "int8", k, false, what, 3, 1))
			}
			for _, k := range combos(matKinds, 2) {
				l = append(l, mk("C10", op+"-method", "int8", k, false, "arbitrary operands", 2, 2), mk("C10", op+"-method", "uint8", k, false, "arbitrary operands", 1, 3), mk("C10", op+"-method", "float64", k, true, "arbitrary operands", 2, 1))
			}
			for _, k := range combos(vecKinds, 2) {
				l = append(l, mk("C10", op+"-method", "int8", k, false, "arbitrary operands", 4, 1))
			}
			for _, m := range matKinds {
				for _, v := range vecKinds {
					l = append(l, mk("C10", op+"-method", "int8", []string{m, v}, false, "arbitrary operands", 2, 1), mk("C10", op+"-method", "int8", []string{v, m}, false, "arbitrary operands", 2, 1))
				}
			}
			for i, k := range append(combos(matKinds, 3), combos(vecKinds, 3)...) {
				shapes := bigShapes(k[0], thorough)
				if !thorough {
					shapes = shapes[i%len(shapes) : i%len(shapes)+1]
				}
				for _, s := range shapes {
					l = append(l, mk("C10", op+"-pat", "int8", k, false, "patterns of stored cells, two arbitrary values among constants in each operand, cleared destination", s[0], s[1]))
				}
			}
			for _, k := range append(combos(matKinds, 2), combos(vecKinds, 2)...) {
				s := bigShapes(k[0], false)[0]
				l = append(l, mk("C10", op+"-method-pat", "int8", k, false, "patterns of stored cells, two arbitrary values among constants in each operand", s[0], s[1]))
			}
			for _, typ := range allNums {
				for _, k := range [][]string{{"dense", "csr", "csc"}, {"csr", "csc", "dense"}, {"csc", "csr", "csr"}} {
					l = append(l, mk("C10", op, typ, k, false, what, 1, 1), mk("C10", op+"-method", typ, k[:2], false, "arbitrary operands", 2, 1))
				}
				l = append(l, mk("C10", op+"-method", typ, []string{"svec", "dvec"}, false, "arbitrary operands", 2, 1), mk("C10", op+"-method", typ, []string{"dvec", "svec"}, false, "arbitrary operands", 2, 1))
			}
			for _, k := range allKinds {
				r, c := shape(k, 2, 2)
				l = append(l, mk("C10", op+"-self", "int8", []string{k}, false, "the same container twice", r, c))
			}
			for _, k := range matKinds { // longer rows and columns in one format
				for _, s := range [][2]int{{1, 4}, {4, 1}} {
					l = append(l, mk("C10", op+"-method", "int8", []string{k, k}, false, "arbitrary operands", s[0], s[1]), mk("C10", op, "int8", []string{k, k, k}, false, what, s[0], s[1]))
				}
			}
		}
		return l
	}
	jobsOf["C11"] = func(thorough bool) []Job {
		var l []Job
		for _, typ := range []string{"int8", "uint8", "float64"} {
			for _, k := range allKinds {
				r, c := shape(k, 2, 2)
				if isVec(k) {
					r = 4
				}
				for _, op := range []string{"scalar", "negative"} {
					l = append(l, mk("C11", op, typ, []string{k}, true, "arbitrary contents and scalar", r, c))
					if thorough && !isVec(k) {
						l = append(l, mk("C11", op, typ, []string{k}, true, "arbitrary contents and scalar", 2, 3), mk("C11", op, typ, []string{k}, true, "arbitrary contents and scalar", 3, 2))
					}
				}
			}
			if typ == "int8" {
				for _, k := range allKinds {
					for _, s := range bigShapes(k, thorough) {
						l = append(l, mk("C11", "scalar-pat", typ, []string{k}, false, "patterns of stored cells, two arbitrary values among constants, scalar one of 0, 1, -3, 64 and an arbitrary one", s[0], s[1]), mk("C11", "negative-pat", typ, []string{k}, false, "patterns of stored cells with arbitrary non-zero values", s[0], s[1]))
					}
					r, c := shape(k, 1, 3)
					l = append(l, mk("C11", "scalar", typ, []string{k}, false, "arbitrary contents and scalar", r, c), mk("C11", "negative", typ, []string{k}, false, "arbitrary contents and scalar", r, c))
					r, c = shape(k, 3, 1)
					l = append(l, mk("C11", "scalar", typ, []string{k}, false, "arbitrary contents and scalar", r, c), mk("C11", "negative", typ, []string{k}, false, "arbitrary contents and scalar", r, c))
				}
				for _, k := range append(combos(matKinds, 2), combos(vecKinds, 2)...) {
					for _, s := range bigShapes(k[0], thorough) {
						l = append(l, mk("C11", "negative-func-pat", typ, k, false, "patterns of stored cells with arbitrary non-zero values, cleared or same-content destination", s[0], s[1]))
					}
				}
			}
			for _, k := range combos(matKinds, 2) {
				l = append(l, mk("C11", "negative-func", typ, k, true, "arbitrary contents, cleared or same-content destination", 2, 2))
			}
			for _, k := range combos(vecKinds, 2) {
				l = append(l, mk("C11", "negative-func", typ, k, true, "arbitrary contents, cleared or same-content destination", 3, 1))
			}
		}
		for _, typ := range []string{"float32", "float64"} {
			for _, k := range allKinds {
				r, c := shape(k, 1, 2)
				l = append(l, mk("C11", "scalar-ieee", typ, []string{k}, false, "arbitrary contents, infinities and not-a-number included, and arbitrary finite scalar", r, c))
			}
		}
		for _, typ := range allNums {
			if typ == "int8" || typ == "uint8" || typ == "float64" {
				continue
			}
			for _, k := range allKinds {
				l = append(l, mk("C11", "scalar", typ, []string{k}, false, "arbitrary contents and scalar", 1, 1), mk("C11", "negative", typ, []string{k}, false, "arbitrary contents", 2, 1))
			}
		}
		return l
	}
	jobsOf["C12"] = func(thorough bool) []Job {
		var l []Job
		for _, typ := range []string{"int8", "float64"} {
			for _, k := range allKinds {
				shapes := [][2]int{{2, 2}, {2, 3}, {3, 2}, {1, 4}, {4, 1}}
				if thorough {
					shapes = append(shapes, [2]int{3, 3}, [2]int{2, 4})
				}
				if isVec(k) {
					shapes = [][2]int{{4, 1}, {1, 1}}
				}
				for _, s := range shapes {
					l = append(l, mk("C12", "", typ, []string{k}, false, "arbitrary contents; method, method twice, to CSR, to CSC, and the function into each cleared format", s[0], s[1]))
				}
				if typ == "int8" {
					for _, s := range bigShapes(k, thorough) {
						l = append(l, mk("C12", "pat", typ, []string{k}, false, itoa(len(patterns))+" patterns of stored cells with arbitrary non-zero values; method, method twice, to CSR, to CSC, and the function into each cleared format", s[0], s[1]))
					}
				}
			}
		}
		for _, typ := range allNums {
			if typ == "int8" || typ == "float64" {
				continue
			}
			for _, k := range allKinds {
				r, q := shape(k, 1, 2)
				l = append(l, mk("C12", "", typ, []string{k}, false, "arbitrary contents; method, method twice, to CSR, to CSC, and the function into each cleared format", r, q))
			}
		}
		return l
	}
	jobsOf["C13"] = func(thorough bool) []Job {
		var l []Job
		what := "arbitrary operands, cleared destination"
		for _, op := range []string{"mult", "merge"} {
			for _, k := range combos(matKinds, 3) {
				l = append(l, mk("C13", op, "int8", k, false, what, 2, 2))
				if thorough {
					l = append(l, mk("C13", op, "int8", k, false, what, 2, 3), mk("C13", op, "float64", k, true, what, 2, 2))
				} else {
					l = append(l, mk("C13", op, "float64", k, true, what, 1, 2))
				}
			}
			for _, k := range combos(vecKinds, 3) {
				l = append(l, mk("C13", op+"-vec", "int8", k, false, what, 3, 1), mk("C13", op+"-vec", "uint8", k, false, what, 2, 1))
			}
			for _, k := range combos(matKinds, 2) {
				l = append(l, mk("C13", op+"-inplace", "int8", k, false, "arbitrary operands, destination is an operand", 2, 2), mk("C13", op+"-inplace", "uint8", k, false, "arbitrary operands, destination is an operand", 1, 3))
			}
			for i, k := range append(combos(matKinds, 3), combos(vecKinds, 3)...) {
				shapes := bigShapes(k[0], thorough)
				if !thorough {
					shapes = shapes[i%len(shapes) : i%len(shapes)+1]
				}
				for _, s := range shapes {
					l = append(l, mk("C13", op+"-pat", "int8", k, false, "patterns of stored cells, two arbitrary values among constants in each operand, cleared destination", s[0], s[1]))
				}
			}
			for _, k := range append(combos(matKinds, 2), combos(vecKinds, 2)...) {
				s := bigShapes(k[0], false)[0]
				l = append(l, mk("C13", op+"-inplace-pat", "int8", k, false, "patterns of stored cells, two arbitrary values among constants in each operand, destination is an operand", s[0], s[1]))
			}
			for _, typ := range allNums {
				for _, k := range [][]string{{"dense", "csr", "csc"}, {"csr", "csc", "dense"}, {"csc", "csr", "csr"}, {"svec", "dvec", "svec"}, {"dvec", "svec", "dvec"}} {
					l = append(l, mk("C13", op, typ, k, false, what, 1, 1))
				}
			}
			for _, k := range matKinds {
				for _, s := range [][2]int{{1, 4}, {4, 1}} {
					l = append(l, mk("C13", op, "int8", []string{k, k, k}, false, what, s[0], s[1]), mk("C13", op+"-inplace", "int8", []string{k, k}, false, "arbitrary operands, destination is an operand", s[0], s[1]))
				}
			}
			for _, k := range combos(vecKinds, 2) {
				l = append(l, mk("C13", op+"-vec-inplace", "int8", k, false, "arbitrary operands, destination is an operand", 4, 1))
			}
		}
		return l
	}
}

// patternTwo draws two patterns of one shape, each with two arbitrary values; some of the constants cancel.
func patternTwo[T Num](R, C int) (x, y [][]T) {
	n := len(patterns)
	p := somePattern(R, C)
	q := []int{0, (p + 3) % n, (p*5 + 4) % n}[sym.Choose(3)]
	x, y = constantWith[T]("a", R, C, p, 1, 2), constantWith[T]("b", R, C, q, 2, 2)
	for i := range y {
		for j := range y[i] {
			if (i+2*j)%5 == 3 && y[i][j] == 0 {
				y[i][j] = -x[i][j]
			}
		}
	}
	return
}

// ---- C10

func C10(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c10[int8](c)
	case "int16":
		c10[int16](c)
	case "int32":
		c10[int32](c)
	case "int64":
		c10[int64](c)
	case "int":
		c10[int](c)
	case "uint8":
		c10[uint8](c)
	case "uint16":
		c10[uint16](c)
	case "uint32":
		c10[uint32](c)
	case "uint64":
		c10[uint64](c)
	case "uint":
		c10[uint](c)
	case "uintptr":
		c10[uintptr](c)
	case "float32":
		c10[float32](c)
	case "float64":
		c10[float64](c)
	}
}

func c10[T Num](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	op, pat := cut(c.Op, "-pat")
	var x, y [][]T
	if pat {
		x, y = patternTwo[T](R, C)
	} else {
		x = grid[T]("a", R, C)
	}
	a := build(c.Kind[0], x)
	b := a
	if op == "add-self" || op == "sub-self" {
		y = x
	} else {
		if !pat {
			y = grid[T]("b", R, C)
		}
		b = build(c.Kind[1], y)
	}
	sum := c.Op[:3] == "add"
	want := zeros[T](R, C)
	for i := range want {
		for j := range want[i] {
			if sum {
				want[i][j] = x[i][j] + y[i][j]
			} else {
				want[i][j] = x[i][j] - y[i][j]
			}
		}
	}
	var z gb.Matrix[T]
	switch op {
	case "add", "sub":
		z = empty[T](c.Kind[2], R, C)
		if sum {
			gb.Add(bg, a, b, nil, z)
		} else {
			gb.Subtract(bg, a, b, nil, z)
		}
	default:
		if sum {
			z = a.Add(b)
		} else {
			z = a.Subtract(b)
		}
	}
	if sum {
		holds[T](z, want, "element of the sum")
	} else {
		holds[T](z, want, "element of the difference")
	}
	observe[T](z)
}

// ---- C11

func C11(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c11[int8](c)
	case "int16":
		c11[int16](c)
	case "int32":
		c11[int32](c)
	case "int64":
		c11[int64](c)
	case "int":
		c11[int](c)
	case "uint8":
		c11[uint8](c)
	case "uint16":
		c11[uint16](c)
	case "uint32":
		c11[uint32](c)
	case "uint64":
		c11[uint64](c)
	case "uint":
		c11[uint](c)
	case "uintptr":
		c11[uintptr](c)
	case "float32":
		c11[float32](c)
	case "float64":
		c11[float64](c)
	}
}

func c11[T Num](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	op, pat := cut(c.Op, "-pat")
	var x [][]T
	switch {
	case op == "scalar-ieee":
		x, op = gridAny[T]("a", R, C), "scalar"
	case !pat:
		x = grid[T]("a", R, C)
	case op == "scalar":
		x = constantWith[T]("a", R, C, somePattern(R, C), 1, 2)
	default:
		x = pattern[T]("a", R, C, somePattern(R, C))
	}
	a := build(c.Kind[0], x)
	want := zeros[T](R, C)
	if op == "scalar" {
		alpha := sym.Val[T]("alpha")
		sym.Assume(sym.Finite(alpha))
		if pat {
			if k := sym.Choose(5); k < 4 {
				three := T(3)
				alpha = []T{0, 1, -three, 64}[k]
			} else if R*C > 12 {
				sym.Assume(alpha != 0)
			}
		}
		for i := range want {
			for j := range want[i] {
				want[i][j] = alpha * x[i][j]
			}
		}
		var z gb.Matrix[T]
		if sym.Choose(2) == 0 {
			z = a.Scalar(alpha)
		} else {
			z = gb.Scalar(context.Background(), a, alpha)
		}
		holds[T](z, want, "alpha times the element")
		observe[T](z)
		return
	}
	for i := range want {
		for j := range want[i] {
			want[i][j] = -x[i][j]
		}
	}
	if op == "negative" {
		z := a.Negative()
		holds[T](z, want, "minus the element")
		observe[T](z)
		return
	}
	var z gb.Matrix[T]
	if sym.Choose(2) == 0 {
		z = empty[T](c.Kind[1], R, C)
	} else {
		z = build(c.Kind[1], x)
	}
	gb.Negative(bg, a, nil, z)
	holds[T](z, want, "minus the element")
	holds[T](a, x, "operand of the negation")
}

// ---- C12

func C12(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c12[int8](c)
	case "int16":
		c12[int16](c)
	case "int32":
		c12[int32](c)
	case "int64":
		c12[int64](c)
	case "int":
		c12[int](c)
	case "uint8":
		c12[uint8](c)
	case "uint16":
		c12[uint16](c)
	case "uint32":
		c12[uint32](c)
	case "uint64":
		c12[uint64](c)
	case "uint":
		c12[uint](c)
	case "uintptr":
		c12[uintptr](c)
	case "float32":
		c12[float32](c)
	case "float64":
		c12[float64](c)
	}
}

func c12[T Num](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	var x [][]T
	if c.Op == "pat" {
		x = pattern[T]("a", R, C, somePattern(R, C))
	} else {
		x = gridAny[T]("a", R, C)
	}
	m := build(c.Kind[0], x)
	want := rows[T](C, R)
	for j := range want {
		want[j] = make([]T, R)
		for i := range x {
			want[j][i] = x[i][j]
		}
	}
	switch sym.Choose(8) {
	case 0:
		t := m.Transpose()
		holds(t, want, "transposed element (method)")
		observe(t)
	case 1:
		holds(m.Transpose().Transpose(), x, "transposing twice gives the original")
	case 2:
		holds[T](gb.TransposeToCSR(bg, m), want, "transposed element (to CSR)")
	case 3:
		holds[T](gb.TransposeToCSC(bg, m), want, "transposed element (to CSC)")
	case 4:
		d := gb.NewDenseMatrixN[T](C, R)
		gb.Transpose[T](bg, m, nil, d)
		holds[T](d, want, "transposed element (into dense)")
	case 5:
		d := gb.NewCSRMatrix[T](C, R)
		gb.Transpose[T](bg, m, nil, d)
		holds[T](d, want, "transposed element (into CSR)")
		c03Check[T](d, want, true)
	case 6:
		d := gb.NewCSCMatrix[T](C, R)
		gb.Transpose[T](bg, m, nil, d)
		holds[T](d, want, "transposed element (into CSC)")
		c03Check[T](d, want, true)
	case 7:
		holds[T](gb.TransposeToCSC(bg, gb.TransposeToCSR(bg, m)), x, "transposing twice gives the original (through CSR and CSC)")
	}
	holds[T](m, x, "transposing leaves the source alone")
}

// ---- C13

func C13(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c13[int8](c)
	case "int16":
		c13[int16](c)
	case "int32":
		c13[int32](c)
	case "int64":
		c13[int64](c)
	case "int":
		c13[int](c)
	case "uint8":
		c13[uint8](c)
	case "uint16":
		c13[uint16](c)
	case "uint32":
		c13[uint32](c)
	case "uint64":
		c13[uint64](c)
	case "uint":
		c13[uint](c)
	case "uintptr":
		c13[uintptr](c)
	case "float32":
		c13[float32](c)
	case "float64":
		c13[float64](c)
	}
}

func c13[T Num](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	var x, y [][]T
	if _, pat := cut(c.Op, "-pat"); pat {
		x, y = patternTwo[T](R, C)
	} else {
		x, y = grid[T]("a", R, C), grid[T]("b", R, C)
	}
	a, b := build(c.Kind[0], x), build(c.Kind[1], y)
	mult := c.Op[:4] == "mult"
	want := zeros[T](R, C)
	f := func(p, q T) T {
		if mult {
			return p * q
		}
		return sym.Ite(q != 0, q, p)
	}
	for i := range want {
		for j := range want[i] {
			want[i][j] = f(x[i][j], y[i][j])
		}
	}
	run := func(a, b, d gb.Matrix[T]) {
		vec := isVec(c.Kind[0])
		switch {
		case mult && vec:
			gb.ElementWiseVectorMultiply(bg, a.(gb.Vector[T]), b.(gb.Vector[T]), nil, d.(gb.Vector[T]))
		case mult:
			gb.ElementWiseMatrixMultiply(bg, a, b, nil, d)
		case vec:
			gb.ElementWiseVectorAdd(bg, a.(gb.Vector[T]), b.(gb.Vector[T]), nil, d.(gb.Vector[T]))
		default:
			gb.ElementWiseMatrixAdd(bg, a, b, nil, d)
		}
	}
	if len(c.Kind) == 3 {
		d := empty[T](c.Kind[2], R, C)
		run(a, b, d)
		holds[T](d, want, "element-wise result")
		holds[T](a, x, "the first operand is kept")
		holds[T](b, y, "the second operand is kept")
		observe[T](d)
		return
	}
	switch sym.Choose(3) {
	case 0:
		run(a, b, a)
		holds[T](a, want, "element-wise result in the first operand")
		holds[T](b, y, "the second operand is kept")
	case 1: // both operands and the destination are one object
		for i := range want {
			for j := range want[i] {
				want[i][j] = f(x[i][j], x[i][j])
			}
		}
		run(a, a, a)
		holds[T](a, want, "element-wise result when both operands are the destination")
	case 2:
		run(a, b, b)
		holds[T](b, want, "element-wise result in the second operand")
		holds[T](a, x, "the first operand is kept")
	}
}
