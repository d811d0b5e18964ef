package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	bubble "github.com/rossmerr/graphblas/sort"

	"verif/harness/sym"
)

func init() {
	Registry["C18"] = C18
	jobsOf["C18"] = func(thorough bool) []Job {
		var l []Job
		what := "arbitrary operands; then writes to every cell of the result or of an operand"
		for _, k := range combos(matKinds, 2) {
			for _, op := range []string{"add", "subtract", "multiply", "equal"} {
				if op == "multiply" && !thorough && numSparse(k) == 2 {
					l = append(l, mk("C18", op, "int8", k, false, what, 1, 2, 2), mk("C18", op, "int8", k, false, what, 2, 1, 2))
					continue
				}
				l = append(l, mk("C18", op, "int8", k, false, what, 2, 2, 2))
				if op != "multiply" {
					l = append(l, mk("C18", op, "int8", k, false, what, 1, 1, 3))
				}
				if thorough && op != "multiply" {
					l = append(l, mk("C18", op, "int8", k, false, what, 2, 3, 3))
				}
			}
			if !thorough {
				l = append(l, mk("C18", "strassen-direct", "int8", k, false, what, 1, 2, 2))
			} else {
				l = append(l, mk("C18", "strassen-direct", "int8", k, false, what, 2, 2, 2))
			}
			j := mk("C18", "strassen", "int8", k, false, what+"; default schedule", 2, 2, 2)
			j.Cfg.Preempt = 0
			if numSparse(k) < 2 || thorough {
				l = append(l, j)
			}
		}
		for _, k := range combos(matKinds, 2) {
			for _, op := range []string{"add", "subtract", "multiply", "strassen-direct", "equal"} {
				l = append(l, mk("C18", op, "int8", k, false, what, 1, 1, 1))
			}
			for _, op := range []string{"add", "subtract", "multiply", "equal"} {
				l = append(l, mk("C18", op+"-pat", "int8", k, false, "patterns of stored cells, one arbitrary value among constants; then writes to every cell of the result or of an operand", 5, 5, 5))
			}
		}
		for _, k := range combos(vecKinds, 2) {
			for _, op := range []string{"add", "subtract", "equal"} {
				l = append(l, mk("C18", op, "int8", k, false, what, 1, 1, 1), mk("C18", op+"-pat", "int8", k, false, "patterns of stored cells, one arbitrary value among constants; then writes to every cell of the result or of an operand", 20, 1, 1))
				l = append(l, mk("C18", op, "int8", k, false, what, 3, 1, 1))
			}
		}
		for _, m := range matKinds {
			for _, v := range vecKinds {
				l = append(l, mk("C18", "multiply", "int8", []string{m, v}, false, what, 2, 2, 1))
				l = append(l, mk("C18", "add", "int8", []string{m, v}, false, what, 2, 1, 1), mk("C18", "add", "int8", []string{v, m}, false, what, 2, 1, 1))
			}
		}
		for _, k := range allKinds {
			r, c := shape(k, 2, 2)
			for _, op := range []string{"scalar", "scalar-func", "negative", "transpose", "copy", "to-csr", "to-csc", "reduce"} {
				l = append(l, mk("C18", op, "int8", []string{k}, false, what, r, 1, c), mk("C18", op, "int8", []string{k}, false, what, 1, 1, 1))
				for _, s := range bigShapes(k, thorough) {
					if op == "reduce" {
						break
					}
					l = append(l, mk("C18", op+"-pat", "int8", []string{k}, false, "patterns of stored cells, one arbitrary value among constants; then writes to every cell of the result or of an operand", s[0], s[1], s[1]))
				}
				if !isVec(k) {
					l = append(l, mk("C18", op, "int8", []string{k}, false, what, 1, 1, 3))
				}
			}
			if isVec(k) {
				continue
			}
			for _, op := range []string{"reduce-vector", "symmetric", "skew"} {
				j := mk("C18", op, "int8", []string{k}, false, what, 2, 1, 2)
				if op == "reduce-vector" {
					j.Cfg.Preempt = 0
					j.Bound += "; default schedule"
				}
				l = append(l, j)
			}
			l = append(l, mk("C18", "reduced", "float64", []string{k}, true, what, 2, 1, 2), mk("C18", "reduced", "float64", []string{k}, true, what, 1, 1, 1), mk("C18", "reduced", "float64", []string{k}, true, what, 1, 1, 2), mk("C18", "reduced", "float64", []string{k}, true, what, 1, 1, 3), mk("C18", "reduced", "float64", []string{k}, true, what, 2, 1, 1), mk("C18", "reduced", "float64", []string{k}, true, what, 3, 1, 1))
			l = append(l, mk("C18", "bfs", "uint8", []string{k}, false, what, 1, 1, 1), mk("C18", "symmetric", "int8", []string{k}, false, what, 1, 1, 1), mk("C18", "skew", "int8", []string{k}, false, what, 1, 1, 1))
			l = append(l, mk("C18", "bfs", "uint8", []string{k}, false, what, 2, 1, 2))
			if thorough {
				l = append(l, mk("C18", "reduced", "float64", []string{k}, true, what, 2, 1, 3), mk("C18", "symmetric", "int8", []string{k}, false, what, 3, 1, 3), mk("C18", "bfs", "uint8", []string{k}, false, what, 3, 1, 3))
			}
		}
		for _, op := range []string{"rows", "columns"} {
			l = append(l, mk("C18", op, "int32", []string{"dense"}, false, what, 2, 1, 2))
			if thorough {
				l = append(l, mk("C18", op, "int32", []string{"dense"}, false, what, 2, 1, 3), mk("C18", op, "int32", []string{"dense"}, false, what, 3, 1, 2))
			}
		}
		for _, op := range destOps {
			for i, k := range opCombos(op) {
				n := []int{1, 2, 2}
				if op == "emulv" || op == "eaddv" || op == "mxv" || op == "vxm" {
					n = []int{2, 1, 1}
				}
				if i%2 == 0 {
					n[0], n[2] = n[2], n[0]
				}
				if op == "emulv" || op == "eaddv" || op == "mxv" || op == "vxm" {
					n = []int{2, 1, 1}
				}
				l = append(l, mk("C18", "dest-"+op, "int8", k, false, what, n...))
			}
		}
		return l
	}
}

func C18(c sym.Cfg) {
	if runeOp(c.Op) {
		c18rune(c)
		return
	}
	switch c.Typ {
	case "int8":
		c18[int8](c)
	case "int16":
		c18[int16](c)
	case "int32":
		c18[int32](c)
	case "int64":
		c18[int64](c)
	case "int":
		c18[int](c)
	case "uint8":
		c18[uint8](c)
	case "uint16":
		c18[uint16](c)
	case "uint32":
		c18[uint32](c)
	case "uint64":
		c18[uint64](c)
	case "uint":
		c18[uint](c)
	case "uintptr":
		c18[uintptr](c)
	case "float32":
		c18[float32](c)
	case "float64":
		c18[float64](c)
	}
}

// poke overwrites every cell (or every stored one) in one of the ways there are.
func poke[T Num](m gb.MatrixLogical[T], g [][]T, few bool) [][]T {
	R, C := len(g), width(g)
	z := zeros[T](R, C)
	full, isfull := m.(gb.Matrix[T])
	comp, iscomp := m.(gb.MatrixCompressed[T])
	vec, isvec := m.(gb.Vector[T])
	n := 3
	if !few {
		n = 4
		if isfull {
			n = 6
		}
		if iscomp || isvec {
			n = 7
		}
	}
	how := sym.Choose(n)
	if few && how == 1 {
		how = 3
	}
	switch how {
	case 2:
		m.Clear()
		return z
	case 4, 5: // map the present elements to other values or to zero
		v := T(0)
		if how == 4 {
			v = nonzero[T]("poke")
		}
		for it := full.Map(); it.HasNext(); {
			it.Map(func(r, c int, x T) T { return v })
		}
		for i := range z {
			for j := range z[i] {
				z[i][j] = v
				if isSparse(m) {
					z[i][j] = sym.Ite(g[i][j] == 0, 0, v)
				}
			}
		}
		return z
	}
	for i := range z {
		for j := range z[i] {
			if how != 1 {
				z[i][j] = nonzero[T]("poke")
			}
			v := z[i][j]
			switch {
			case how == 3:
				m.Update(i, j, func(T) T { return v })
			case how == 6 && isvec:
				vec.SetVec(i, v)
			case how == 6 && (i+j)%2 == 0:
				comp.SetReturnPointer(i, j, v)
			case how == 6:
				comp.UpdateReturnPointer(i, j, func(T) T { return v })
			default:
				m.Set(i, j, v)
			}
		}
	}
	return z
}

// apart checks that writing to any one of the containers leaves the others alone.
func apart[T Num](what string, few bool, ms []gb.MatrixLogical[T], gs [][][]T) {
	for i := range ms {
		holds(ms[i], gs[i], what)
	}
	k := sym.Choose(len(ms))
	gs[k] = poke(ms[k], gs[k], few)
	for i := range ms {
		holds(ms[i], gs[i], what+" after a write to another container")
	}
}

func c18[T Num](c sym.Cfg) {
	op := c.Op
	if len(op) > 5 && op[:5] == "dest-" {
		c18dest[T](c, op[5:])
		return
	}
	R, K, C := c.N[0], c.N[1], c.N[2]
	op, pat := cut(op, "-pat")
	var x, y [][]T
	product := op == "multiply" || op == "strassen" || op == "strassen-direct"
	switch {
	case pat:
		n := len(patterns)
		p := somePattern(R, C)
		if !product {
			K = C
		}
		x, y = constantWith[T]("a", R, K, p, 1, 1), constant[T](R, C, (p*5+4)%n, 2)
		if product {
			y = constant[T](K, C, (p*5+4)%n, 2)
		}
	case product:
		x = grid[T]("a", R, K)
	default:
		x = grid[T]("a", R, C)
	}
	a := build(c.Kind[0], x)
	ms, gs := []gb.MatrixLogical[T]{a}, [][][]T{x}
	var b gb.Matrix[T]
	if len(c.Kind) > 1 {
		switch {
		case pat:
		case product:
			y = grid[T]("b", K, C)
		default:
			y = grid[T]("b", R, C)
		}
		b = build(c.Kind[1], y)
		ms, gs = append(ms, b), append(gs, y)
	}
	alpha := T(3)
	if !pat {
		alpha = vals[T]("alpha", 1)[0]
	} else if sym.Choose(2) == 0 {
		alpha = 0
	}
	var z gb.MatrixLogical[T]
	switch op {
	case "add":
		z = a.Add(b)
	case "subtract":
		z = a.Subtract(b)
	case "multiply":
		z = a.Multiply(b)
	case "equal":
		if a.Equal(b) == a.NotEqual(b) {
			sym.Fail("Equal and NotEqual agree")
		}
	case "scalar":
		z = a.Scalar(alpha)
	case "scalar-func":
		z = gb.Scalar(bg, a, alpha)
	case "negative":
		z = a.Negative()
	case "transpose":
		z = a.Transpose()
	case "copy":
		z = a.CopyLogical()
	case "to-csr":
		z = gb.TransposeToCSR(bg, a)
	case "to-csc":
		z = gb.TransposeToCSC(bg, a)
	case "reduce":
		gb.ReduceMatrixToScalar[T](bg, a, nil)
	case "reduce-vector":
		z = gb.ReduceMatrixToVector(bg, a)
	case "symmetric":
		symmetric.Symmetric(a)
	case "skew":
		skewsymmetric.SkewSymmetric(a)
	case "reduced":
		z = reduced.Reduced(a)
	case "strassen":
		z = strassen.MultiplyCrossoverPoint(bg, a, b, 1)
	case "strassen-direct":
		z = strassen.Multiply(bg, a, b)
	case "bfs":
		n := 0
		stop := sym.Choose(R + 1)
		z = breadthfirst.Search(bg, a, sym.Choose(R), func(gb.Vector[T]) bool { n++; return n > stop })
	}
	if z != nil {
		ms, gs = append(ms, z), append(gs, content(z))
	}
	apart("contents of an operand or the result", pat, ms, gs)
}

func c18dest[T Num](c sym.Cfg, op string) {
	da, db, dd := opShape(op, c.N[0], c.N[1], c.N[2])
	x := grid[T]("a", da.r, da.c)
	a := build(c.Kind[0], x)
	b, y := second[T](op, c.Kind[1], db)
	t := newTable(flatten(x))
	d := empty[T](c.Kind[2], dd.r, dd.c)
	runOp[T](bg, op, a, b, d, nil, t.op())
	ms, gs := []gb.MatrixLogical[T]{a, d}, [][][]T{x, content[T](d)}
	if b != nil {
		ms, gs = append(ms, b), append(gs, y)
	}
	apart("contents of an operand or the destination", false, ms, gs)
}

func c18rune(c sym.Cfg) {
	x, a := runes("a", c.N[0], c.N[2])
	var z gb.MatrixRune
	if c.Op == "rows" {
		z = bubble.BubbleRow(bg, a)
	} else {
		z = bubble.BubbleColumns(bg, a)
	}
	apart("contents of an operand or the result", false, []gb.MatrixLogical[rune]{a, z}, [][][]rune{x, content[rune](z)})
}
