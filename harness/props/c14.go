package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"

	"verif/harness/sym"
)

func init() {
	Registry["C14"] = C14
	jobsOf["C14"] = func(thorough bool) []Job {
		var l []Job
		what := "arbitrary operands, destination contents and mask, compared with the unmasked run on the same destination contents"
		masks := []string{"bool", "dense", "csr", "csc"}
		for _, op := range destOps {
			for i, k := range opCombos(op) {
				n := []int{1, 2, 2}
				if op == "emulv" || op == "eaddv" || op == "mxv" || op == "vxm" {
					n = []int{2, 1, 1}
				}
				l = append(l, mk("C14", op, "int8", append(k, "bool"), false, what, n...))
				l = append(l, mk("C14", op, "int8", append(k, "none"), false, what, n...))
				if n[1] == 2 {
					l = append(l, mk("C14", op, "int8", append(k, "bool"), false, what, 2, 1, 1))
				}
				m := masks[1+i%3]
				if _, _, d := opShape(op, n[0], n[1], n[2]); d.c == 1 && i%2 == 1 {
					m = vecKinds[i/2%2]
				}
				l = append(l, mk("C14", op, "int8", append(k, m), false, what, n...))
				if thorough {
					if sp := numSparse(k); sp <= 1 || op == "mxv" || op == "vxm" || unary(op) && sp <= 2 {
						l = append(l, mk("C14", op, "int8", append(k, "bool"), false, what, 2, 2, 2))
					} else if op == "mxm" {
						l = append(l, mk("C14", op, "int8", append(k, "bool"), false, what, 2, 1, 2))
					} else {
						l = append(l, mk("C14", op, "int8", append(k, "bool"), false, what, 3, 1, 1))
					}
					l = append(l, mk("C14", op, "float64", append(k, "bool"), true, what, n...))
				}
				if op == "emul" || op == "apply" || op == "add" || op == "eadd" || op == "negative" {
					if k[0] == k[2] {
						l = append(l, mk("C14", op+"-inplace", "int8", append(k, "bool"), false, "destination is the first operand", 1, 2, 2), mk("C14", op+"-inplace", "int8", append(k, "csr"), false, "destination is the first operand", 2, 2, 1))
					}
				}
			}
			shapes := [][]int{{3, 2, 4}, {2, 5, 3}, {5, 1, 2}}
			if thorough {
				shapes = append(shapes, []int{5, 5, 5}, []int{1, 3, 9}, []int{7, 2, 1})
			}
			what := "patterns of stored cells and of the mask; constants with one arbitrary value in the first operand and two arbitrary mask cells, compared with the unmasked run"
			for i, k := range opCombos(op) {
				m := append([]string{"bool"}, masks[1:]...)[i%4]
				if op == "emulv" || op == "eaddv" || op == "mxv" || op == "vxm" {
					l = append(l, mk("C14", op+"-pat", "int16", append(k, "bool"), false, what, 9, 3, 1), mk("C14", op+"-pat", "int16", append(k, vecKinds[i%2]), false, what, 5, 5, 1))
					continue
				}
				for j, s := range shapes {
					if thorough || j == i%3 {
						l = append(l, mk("C14", op+"-pat", "int16", append(k, m), false, what, s...))
					}
				}
				if k[0] == k[2] && (op == "emul" || op == "apply" || op == "add" || op == "eadd" || op == "negative") {
					l = append(l, mk("C14", op+"-inplace-pat", "int16", append(k, m), false, what+"; destination is the first operand", 4, 4, 4))
				}
				if op != "mxm" && op != "transpose" {
					l = append(l, mk("C14", op+"-maskoperand", "int8", append(k, "-"), false, "arbitrary operands and destination contents; the mask is an operand", 1, 2, 2))
				}
				if n := []int{1, 1, 2}; op == "emulv" || op == "eaddv" || op == "mxv" || op == "vxm" {
					l = append(l, mk("C14", op+"-maskdest", "int8", append(k, "-"), false, "arbitrary operands and destination contents; the mask is the destination", 2, 1, 1))
				} else {
					l = append(l, mk("C14", op+"-maskdest", "int8", append(k, "-"), false, "arbitrary operands and destination contents; the mask is the destination", n...))
				}
			}
			what = "arbitrary operands, destination contents and mask, compared with the unmasked run on the same destination contents"
			if op == "mxm" {
				for _, k := range opCombos(op) {
					if numSparse(k) <= 1 || thorough {
						l = append(l, mk("C14", op, "int8", append(k, "bool"), false, what, 1, 1, 3))
					}
				}
			}
			a, b, d := opKinds(op)
			for _, m := range []string{"bool", "dense", "csr", "csc", "mutex"} {
				l = append(l, mk("C14", op, "int8", []string{a[0], b[0], d[0], m}, false, what, 2, 2, 2))
			}
			l = append(l, mk("C14", op+"-mismatch", "int8", []string{a[0], b[0], d[0], "dims"}, false, "mask of any other dimensions", 2, 2, 2), mk("C14", op+"-mismatch", "int8", []string{a[len(a)-1], b[len(b)-1], d[len(d)-1], "dims"}, false, "mask of any other dimensions", 1, 1, 2))
			if op == "emul" || op == "apply" {
				l = append(l, mk("C14", op+"-mismatch-inplace", "int8", []string{a[1], b[0], d[1], "dims"}, false, "mask of any other dimensions", 1, 2, 2))
			}
		}
		for _, k := range allKinds {
			r, c := shape(k, 2, 2)
			for _, op := range []string{"reduce", "reduce-monoid"} {
				for _, m := range []string{"bool", "none", "csr", "dense"} {
					l = append(l, mk("C14", op, "int8", []string{k, m}, false, "arbitrary contents and mask", r, c))
				}
				l = append(l, mk("C14", op+"-mismatch", "int8", []string{k, "dims"}, false, "mask of any other dimensions", r, c))
			}
		}
		for _, k := range matKinds {
			for _, m := range []string{"bool", "none", "svec", "dvec"} {
				l = append(l, mk("C14", "reduce-columns", "int8", []string{k, m}, false, "arbitrary contents and mask", 2, 2))
			}
			l = append(l, mk("C14", "reduce-columns-mismatch", "int8", []string{k, "dims"}, false, "mask of any other dimensions", 2, 2))
		}
		for _, k := range vecKinds {
			l = append(l, mk("C14", "reduce-vec", "int8", []string{k, "bool"}, false, "arbitrary contents and mask", 3, 1), mk("C14", "reduce-vec-monoid", "int8", []string{k, "bool"}, false, "arbitrary contents and mask", 3, 1))
		}
		return l
	}
}

// boolMask is an arbitrary mask.
type boolMask struct{ g [][]bool }

func (m *boolMask) Rows() int             { return len(m.g) }
func (m *boolMask) Columns() int          { return width(m.g) }
func (m *boolMask) Element(r, c int) bool { return m.g[r][c] }

// dimMask has the given dimensions and protects nothing.
type dimMask struct{ r, c int }

func (m *dimMask) Rows() int             { return m.r }
func (m *dimMask) Columns() int          { return m.c }
func (m *dimMask) Element(r, c int) bool { return false }

// makeMask builds an arbitrary mask of the kind and tells which cells it protects.
func makeMask[T Num](kind string, d dim) (gb.Mask, [][]bool) {
	g := make([][]bool, d.r)
	for i := range g {
		g[i] = make([]bool, d.c)
	}
	if kind == "none" {
		if sym.Choose(2) == 0 {
			return nil, g
		}
		return gb.NewEmptyMask(d.r, d.c), g
	}
	if kind == "bool" {
		for i := range g {
			for j := range g[i] {
				g[i][j] = sym.Bool("mask")
			}
		}
		return &boolMask{g}, g
	}
	x := grid[T]("mask", d.r, d.c)
	for i := range g {
		for j := range g[i] {
			g[i][j] = x[i][j] > 0
		}
	}
	if kind == "mutex" {
		return gb.NewMutexMatrix(build("csr", x)), g
	}
	return build(kind, x), g
}

func positives[T Num](x [][]T) [][]bool {
	g := make([][]bool, len(x))
	for i := range x {
		g[i] = make([]bool, len(x[i]))
		for j := range x[i] {
			g[i][j] = x[i][j] > 0
		}
	}
	return g
}

// patternMask protects the cells of a pattern, two arbitrary cells being arbitrary.
func patternMask[T Num](kind string, d dim, p int) (gb.Mask, [][]bool) {
	g := make([][]bool, d.r)
	x := zeros[T](d.r, d.c)
	for i := range g {
		g[i] = make([]bool, d.c)
		for j := range g[i] {
			if patterns[p](i, j, d.r, d.c) {
				g[i][j], x[i][j] = true, T(i+j+1)
			} else if (i+j)%3 == 1 {
				three := T(3)
				x[i][j] = -three // not positive: not protected
				if !(x[i][j] < 0) {
					x[i][j] = 0
				}
			}
		}
	}
	for _, q := range [][2]int{{d.r - 1, d.c - 1}, {d.r / 2, 0}} {
		b := sym.Bool("mask")
		g[q[0]][q[1]] = b
		x[q[0]][q[1]] = sym.Ite(b, T(1), T(0))
	}
	if kind == "bool" {
		return &boolMask{g}, g
	}
	return build(kind, x), g
}

// otherDims is a mask with any dimensions but d.
func otherDims(d dim) gb.Mask {
	r, c := sym.Val[int]("mask rows"), sym.Val[int]("mask columns")
	sym.Assume(sym.And(r >= 0, c >= 0, r <= 1000, c <= 1000, sym.Or(r != d.r, c != d.c)))
	return &dimMask{r, c}
}

func cut(s, suffix string) (string, bool) {
	if len(s) >= len(suffix) && s[len(s)-len(suffix):] == suffix {
		return s[:len(s)-len(suffix)], true
	}
	return s, false
}

func C14(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c14[int8](c)
	case "int16":
		c14[int16](c)
	case "int32":
		c14[int32](c)
	case "int64":
		c14[int64](c)
	case "int":
		c14[int](c)
	case "uint8":
		c14[uint8](c)
	case "uint16":
		c14[uint16](c)
	case "uint32":
		c14[uint32](c)
	case "uint64":
		c14[uint64](c)
	case "uint":
		c14[uint](c)
	case "uintptr":
		c14[uintptr](c)
	case "float32":
		c14[float32](c)
	case "float64":
		c14[float64](c)
	}
}

func c14[T Num](c sym.Cfg) {
	op := c.Op
	if len(op) >= 6 && op[:6] == "reduce" {
		c14reduce[T](c)
		return
	}
	op, pat := cut(op, "-pat")
	op, maskoperand := cut(op, "-maskoperand")
	op, maskdest := cut(op, "-maskdest")
	op, inplace := cut(op, "-inplace")
	op, mismatch := cut(op, "-mismatch")
	da, db, dd := opShape(op, c.N[0], c.N[1], c.N[2])
	var x, y [][]T
	var b gb.Matrix[T]
	n, p := len(patterns), 0
	if pat {
		p = sym.Choose(n)
		x = constantWith[T]("a", da.r, da.c, p, 1+p, 1)
		if !unary(op) {
			y = constant[T](db.r, db.c, (p*5+4)%n, 2)
			b = build(c.Kind[1], y)
		}
	} else {
		x = grid[T]("a", da.r, da.c)
		b, y = second[T](op, c.Kind[1], db)
	}
	a := build(c.Kind[0], x)
	var t *table[T]
	if pat {
		t = newTable([]T{3, 5})
	} else {
		t = newTable(flatten(x))
	}
	prev := x
	d := a
	if !inplace {
		if pat {
			prev = constant[T](dd.r, dd.c, (p*3+7)%n, 5)
		} else {
			prev = grid[T]("dst", dd.r, dd.c)
		}
		d = build(c.Kind[2], prev)
	}
	if mismatch {
		mask := otherDims(dd)
		sym.Assert(try(func() { runOp[T](bg, op, a, b, d, mask, t.op()) }), "a mask of other dimensions is rejected")
		holds[T](a, x, "operand after the rejected mask")
		if b != nil {
			holds[T](b, y, "operand after the rejected mask")
		}
		holds[T](d, prev, "destination after the rejected mask")
		return
	}
	// without a mask, on copies
	a2 := build(c.Kind[0], x)
	var b2 gb.Matrix[T]
	if b != nil {
		b2 = build(c.Kind[1], y)
	}
	d2 := a2
	if !inplace {
		d2 = build(c.Kind[2], prev)
	}
	runOp[T](bg, op, a2, b2, d2, nil, t.op())
	want := content[T](d2)

	var mask gb.Mask
	var prot [][]bool
	switch {
	case pat:
		mask, prot = patternMask[T](c.Kind[3], dd, (p*7+2)%n)
	case maskdest:
		mask, prot = d, positives(prev)
	case maskoperand:
		if b != nil && sym.Choose(2) == 0 {
			mask, prot = b, positives(y)
		} else {
			mask, prot = a, positives(x)
		}
	default:
		mask, prot = makeMask[T](c.Kind[3], dd)
	}
	runOp[T](bg, op, a, b, d, mask, t.op())
	for i := range want {
		for j := range want[i] {
			got := d.At(i, j)
			sym.Assert(sym.Implies(prot[i][j], sym.Same(got, prev[i][j])), "a masked cell keeps its value")
			sym.Assert(sym.Implies(!prot[i][j], sym.Same(got, want[i][j])), "an unmasked cell gets its value")
		}
	}
	sym.Assert(d.Rows() == dd.r && d.Columns() == dd.c, "dimensions")
	observe[T](d)
}

func c14reduce[T Num](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	op, mismatch := cut(c.Op, "-mismatch")
	x := grid[T]("a", R, C)
	m := build(c.Kind[0], x)
	unit := sym.Val[T]("unit")
	mono := binaryop.NewMonoID(unit, binaryop.Addition[T]())
	md := dim{R, C}
	if op == "reduce-columns" {
		md = dim{R, 1}
	}
	var mask gb.Mask
	var prot [][]bool
	if mismatch {
		mask = otherDims(md)
	} else {
		mask, prot = makeMask[T](c.Kind[1], md)
	}
	var z []T
	f := func() {
		switch op {
		case "reduce":
			z = []T{gb.ReduceMatrixToScalar[T](bg, m, mask)}
		case "reduce-monoid":
			z = []T{gb.ReduceMatrixToScalarWithMonoID[T](bg, m, mono, mask)}
		case "reduce-vec":
			z = []T{gb.ReduceVectorToScalar[T](bg, m.(gb.Vector[T]), mask)}
		case "reduce-vec-monoid":
			z = []T{gb.ReduceVectorToScalarWithMonoID[T](bg, m.(gb.Vector[T]), mono, mask)}
		case "reduce-columns":
			v := gb.ReduceMatrixToVectorWithMonoID[T](bg, m, mono, mask)
			for i := 0; i < v.Length(); i++ {
				z = append(z, v.AtVec(i))
			}
		}
	}
	if mismatch {
		sym.Assert(try(f), "a mask of other dimensions is rejected")
		holds[T](m, x, "operand after the rejected mask")
		return
	}
	f()
	if op == "reduce-columns" {
		sym.Assert(len(z) == C, "length of the reduction")
		for j := range z {
			want := unit
			for i := range x {
				want += sym.Ite(prot[i][0], 0, x[i][j])
			}
			sym.Assert(sym.Same(z[j], want), "masked elements do not contribute to the column reduction")
		}
		return
	}
	var want T
	if op == "reduce-monoid" || op == "reduce-vec-monoid" {
		want = unit
	}
	for i := range x {
		for j := range x[i] {
			want += sym.Ite(prot[i][j], 0, x[i][j])
		}
	}
	sym.Assert(sym.Same(z[0], want), "masked elements do not contribute to the reduction")
}
