package props

import (
	"context"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"

	"verif/harness/sym"
)

func init() {
	Registry["C07"] = C07
	jobsOf["C07"] = func(thorough bool) []Job {
		var l []Job
		what := "two containers with arbitrary contents"
		for _, k := range combos(matKinds, 2) {
			for _, s := range [][2]int{{2, 2}, {1, 3}, {3, 1}} {
				l = append(l, mk("C07", "pair", "int8", k, false, what, s[0], s[1], s[0], s[1]))
			}
			l = append(l, mk("C07", "pair", "float64", k, false, what, 2, 1, 2, 1))
			l = append(l, mk("C07", "pair", "uint8", k, false, what, 1, 2, 1, 2))
			if thorough {
				l = append(l, mk("C07", "pair", "int8", k, false, what, 2, 3, 2, 3), mk("C07", "pair", "float64", k, false, what, 2, 2, 2, 2))
			}
			for _, d := range [][4]int{{2, 2, 2, 1}, {2, 2, 1, 2}, {1, 2, 2, 1}, {2, 1, 1, 2}, {1, 4, 2, 2}} {
				l = append(l, mk("C07", "pair", "int8", k, false, what, d[0], d[1], d[2], d[3]))
			}
		}
		for _, k := range matKinds {
			l = append(l, mk("C07", "pair", "int8", []string{k, k}, false, what, 1, 4, 1, 4), mk("C07", "pair", "int8", []string{k, k}, false, what, 4, 1, 4, 1))
		}
		for _, k := range combos(vecKinds, 2) {
			l = append(l, mk("C07", "pair", "int8", k, false, what, 4, 1, 4, 1), mk("C07", "pair", "int8", k, false, what, 3, 1, 2, 1), mk("C07", "pair", "int8", k, false, what, 2, 1, 3, 1))
			l = append(l, mk("C07", "pair", "float64", k, false, what, 2, 1, 2, 1))
			if thorough {
				l = append(l, mk("C07", "pair", "int8", k, false, what, 6, 1, 6, 1))
			}
		}
		for _, a := range matKinds {
			for _, b := range vecKinds {
				l = append(l, mk("C07", "pair", "int8", []string{a, b}, false, what, 3, 1, 3, 1), mk("C07", "pair", "int8", []string{a, b}, false, what, 1, 2, 2, 1))
			}
		}
		for _, k := range append(combos(matKinds, 2), combos(vecKinds, 2)...) {
			for _, s := range bigShapes(k[0], thorough) {
				l = append(l, mk("C07", "pat", "int8", k, false, itoa(len(patterns))+" patterns of stored cells with arbitrary non-zero values, the other side the same with up to two arbitrary cells replaced by arbitrary values", s[0], s[1]))
			}
		}
		for _, k := range allKinds {
			r, q := shape(k, 2, 2)
			l = append(l, mk("C07", "self", "int8", []string{k}, false, "a container against itself, its copy and results computed from it", r, q), mk("C07", "self", "float64", []string{k}, false, "a container against itself, its copy and results computed from it", r, 1))
		}
		for _, typ := range allNums {
			if typ == "int8" || typ == "float64" || typ == "uint8" {
				continue
			}
			for _, k := range [][]string{{"dense", "csr"}, {"csr", "csc"}, {"csc", "dense"}, {"csc", "csr"}} {
				l = append(l, mk("C07", "pair", typ, k, false, what, 1, 2, 1, 2))
			}
			for _, k := range [][]string{{"svec", "dvec"}, {"svec", "svec"}, {"dvec", "svec"}} {
				l = append(l, mk("C07", "pair", typ, k, false, what, 2, 1, 2, 1))
			}
		}
		for _, typ := range []string{"bool", "int32"} {
			l = append(l, mk("C07", "pair", typ, []string{"dmat", "dmat"}, false, what, 2, 2, 2, 2), mk("C07", "pair", typ, []string{"dmat", "dv"}, false, what, 3, 1, 3, 1), mk("C07", "pair", typ, []string{"dv", "dv"}, false, what, 3, 1, 3, 1), mk("C07", "pair", typ, []string{"dv", "dv"}, false, what, 3, 1, 2, 1), mk("C07", "pair", typ, []string{"dmat", "dmat"}, false, what, 2, 1, 1, 2))
		}
		l = append(l, mk("C07", "nil", "int8", allKinds, false, "nil against nil and against every storage format"))
		return l
	}
}

func C07(c sym.Cfg) {
	if c.Op == "nil" {
		c07Nil()
		return
	}
	switch c.Kind[0] {
	case "dmat", "dv":
		if c.Typ == "bool" {
			c07Logical[bool](c)
		} else {
			c07Logical[rune](c)
		}
		return
	}
	switch c.Typ {
	case "int8":
		c07[int8](c)
	case "int16":
		c07[int16](c)
	case "int32":
		c07[int32](c)
	case "int64":
		c07[int64](c)
	case "int":
		c07[int](c)
	case "uint8":
		c07[uint8](c)
	case "uint16":
		c07[uint16](c)
	case "uint32":
		c07[uint32](c)
	case "uint64":
		c07[uint64](c)
	case "uint":
		c07[uint](c)
	case "uintptr":
		c07[uintptr](c)
	case "float32":
		c07[float32](c)
	case "float64":
		c07[float64](c)
	}
}

// c07Pat compares two large containers that differ in at most two cells.
func c07Pat[T Num](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	x := pattern[T]("a", R, C, somePattern(R, C))
	y := clone(x)
	for k := sym.Choose(3); k > 0; k-- {
		n := sym.Choose(3)
		i, j := (R-1)*n/2, (C-1)*(n+k)/2%C
		y[i][j] = sym.Val[T]("b")
	}
	a, b := build(c.Kind[0], x), build(c.Kind[1], y)
	c07Check[T](a, b, x, y)
}

// c07Self compares a container with itself and with results computed from it.
func c07Self[T Num](c sym.Cfg) {
	kind := c.Kind[0]
	x := gridAny[T]("a", c.N[0], c.N[1])
	a := build(kind, x)
	if sym.Choose(2) == 0 {
		c07Check[T](a, a, x, x)
		return
	}
	for i := range x {
		for j := range x[i] {
			sym.Assume(sym.Finite(x[i][j]))
		}
	}
	other := matKinds[sym.Choose(3)]
	if isVec(kind) {
		other = vecKinds[sym.Choose(2)]
	}
	z, _ := produced(a, x, other)
	g := content(z)
	fresh := "csr"
	if sym.Choose(2) == 0 {
		fresh = "dense"
	}
	c07Check[T](z, build(fresh, g), g, g)
}

func c07[T Num](c sym.Cfg) {
	switch c.Op {
	case "pat":
		c07Pat[T](c)
		return
	case "self":
		c07Self[T](c)
		return
	}
	x, y := gridAny[T]("a", c.N[0], c.N[1]), gridAny[T]("b", c.N[2], c.N[3])
	a, b := build(c.Kind[0], x), build(c.Kind[1], y)
	c07Check[T](a, b, x, y)
	holds[T](a, x, "comparison leaves the first operand alone")
	holds[T](b, y, "comparison leaves the second operand alone")
}

func c07Logical[T constraints.Type](c sym.Cfg) {
	x, y := gridAny[T]("a", c.N[0], c.N[1]), gridAny[T]("b", c.N[2], c.N[3])
	a, b := emptyLogical[T](c.Kind[0], c.N[0], c.N[1]), emptyLogical[T](c.Kind[1], c.N[2], c.N[3])
	for i := range x {
		for j := range x[i] {
			a.Set(i, j, x[i][j])
		}
	}
	for i := range y {
		for j := range y[i] {
			b.Set(i, j, y[i][j])
		}
	}
	c07Check(a, b, x, y)
}

func c07Check[T constraints.Type](a, b gb.MatrixLogical[T], x, y [][]T) {
	want := len(x) == len(y) && width(x) == width(y)
	if want {
		for i := range x {
			for j := range x[i] {
				want = sym.And(want, x[i][j] == y[i][j])
			}
		}
	}
	switch sym.Choose(4) {
	case 0:
		got := a.Equal(b)
		sym.Assert(sym.Iff(got, want), "equal exactly when dimensions and all elements are equal")
		sym.Observe(got)
	case 1:
		sym.Assert(sym.Iff(a.NotEqual(b), sym.Not(want)), "not-equal is the negation of equal")
	case 2:
		sym.Assert(sym.Iff(b.Equal(a), want), "equality is symmetric")
	case 3:
		sym.Assert(sym.Iff(gb.Equal(bg, a, b), want), "the function agrees with the method")
		sym.Assert(sym.Iff(gb.NotEqual(bg, a, b), sym.Not(want)), "not-equal is the negation of equal")
	}
}

func c07Nil() {
	ctx := context.Background()
	sym.Assert(gb.Equal[int8](ctx, nil, nil), "nil equals nil")
	sym.Assert(!gb.NotEqual[int8](ctx, nil, nil), "nil equals nil")
	for _, k := range allKinds {
		m := empty[int8](k, 2, 1)
		m.Set(1, 0, sym.Val[int8]("v"))
		sym.Assert(!gb.Equal[int8](ctx, m, nil), "a container does not equal nil")
		sym.Assert(!gb.Equal[int8](ctx, nil, m), "nil does not equal a container")
		sym.Assert(gb.NotEqual[int8](ctx, m, nil), "a container does not equal nil")
		sym.Assert(gb.NotEqual[int8](ctx, nil, m), "nil does not equal a container")
		sym.Assert(!m.Equal(nil), "a container does not equal nil")
		sym.Assert(m.NotEqual(nil), "a container does not equal nil")
	}
}
