package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"

	"verif/harness/sym"
)

func init() {
	Registry["C01"] = C01
	jobsOf["C01"] = func(thorough bool) []Job {
		var l []Job
		add := func(op, typ, kind string, r, c, ops int) {
			g := cfg(typ, []string{kind}, r, c, ops)
			g.Op, g.Real = op, false
			b := itoa(r) + "x" + itoa(c) + " " + kind + " of " + typ + ", "
			if op == "arb" {
				b += "arbitrary contents, then " + itoa(ops) + " arbitrary writes"
			} else if op == "pat" {
				b += itoa(len(patterns)) + " patterns of stored cells with arbitrary non-zero values, then " + itoa(ops) + " arbitrary writes"
			} else {
				b += "history of " + itoa(ops) + " arbitrary writes from empty"
			}
			l = append(l, Job{Name: name(g), Fn: "C01", Bound: b, Cfg: g})
		}
		for _, typ := range []string{"int8", "float64", "uint8"} {
			for _, k := range []string{"dense", "csr", "csc"} {
				add("arb", typ, k, 2, 2, 1)
				if typ == "int8" || thorough {
					add("arb", typ, k, 1, 4, 1)
					add("arb", typ, k, 4, 1, 1)
					add("hist", typ, k, 3, 4, 2)
				}
				if typ == "int8" && thorough {
					add("arb", typ, k, 2, 3, 2)
					add("arb", typ, k, 3, 2, 1)
					add("hist", typ, k, 3, 5, 3)
					add("arb", typ, k, 3, 3, 1)
				}
			}
			for _, k := range []string{"dvec", "svec"} {
				add("arb", typ, k, 4, 1, 1)
				if typ == "int8" || thorough {
					add("hist", typ, k, 6, 1, 3)
				}
				if typ == "int8" && thorough {
					add("arb", typ, k, 6, 1, 2)
					add("hist", typ, k, 9, 1, 3)
					add("hist", typ, k, 4, 1, 4)
				}
			}
		}
		for _, typ := range []string{"int16", "int32", "int64", "int", "uint16", "uint32", "uint64", "uint", "uintptr", "float32"} {
			for _, k := range []string{"dense", "csr", "csc", "dvec", "svec"} {
				if k == "dvec" || k == "svec" {
					add("hist", typ, k, 5, 1, 2)
				} else {
					add("hist", typ, k, 2, 3, 2)
				}
			}
		}
		for _, k := range allKinds {
			for _, s := range bigShapes(k, thorough) {
				add("pat", "int8", k, s[0], s[1], 1)
			}
			if isVec(k) && thorough {
				add("pat", "int8", k, 9, 1, 2)
			} else if !isVec(k) {
				add("pat", "int8", k, 1, 12, 1)
				add("pat", "int8", k, 12, 1, 1)
				if thorough {
					add("pat", "int8", k, 3, 4, 2)
				}
			}
		}
		for _, typ := range []string{"bool", "int32"} {
			add("hist", typ, "dmat", 2, 3, 3)
			add("hist", typ, "dv", 4, 1, 3)
		}
		return l
	}
}

// C01 performs arbitrary writes and reads every cell back.
func C01(c sym.Cfg) {
	if c.Kind[0] == "dmat" || c.Kind[0] == "dv" {
		switch c.Typ {
		case "bool":
			c01Logical[bool](c)
		case "int32":
			c01Logical[rune](c)
		}
		return
	}
	switch c.Typ {
	case "int8":
		c01[int8](c)
	case "int16":
		c01[int16](c)
	case "int32":
		c01[int32](c)
	case "int64":
		c01[int64](c)
	case "int":
		c01[int](c)
	case "uint8":
		c01[uint8](c)
	case "uint16":
		c01[uint16](c)
	case "uint32":
		c01[uint32](c)
	case "uint64":
		c01[uint64](c)
	case "uint":
		c01[uint](c)
	case "uintptr":
		c01[uintptr](c)
	case "float32":
		c01[float32](c)
	case "float64":
		c01[float64](c)
	}
}

func modelAt[T sym.Scalar](g [][]T, r, c int) T {
	v := g[0][0]
	for i := range g {
		for j := range g[i] {
			v = sym.Ite(sym.And(i == r, j == c), g[i][j], v)
		}
	}
	return v
}

func modelSet[T sym.Scalar](g [][]T, r, c int, v T) {
	for i := range g {
		for j := range g[i] {
			g[i][j] = sym.Ite(sym.And(i == r, j == c), v, g[i][j])
		}
	}
}

func c01[T Num](c sym.Cfg) {
	kind, R, C, ops := c.Kind[0], c.N[0], c.N[1], c.N[2]
	if c.Op == "history" {
		c01History[T](c)
		return
	}
	if c.Op == "huge" {
		huge(c, func(m gb.Matrix[T], model [][]T, r, cc int, v T, p int) {
			holds[T](m, model, "element reads back the last write")
		})
		return
	}
	if c.Op == "phases" {
		phases(c, func(m gb.Matrix[T], model [][]T) { holds[T](m, model, "element reads back the last write") })
		return
	}
	m := empty[T](kind, R, C)
	model := zeros[T](R, C)
	if c.Op != "hist" {
		if c.Op == "pat" {
			model = pattern[T]("a", R, C, somePattern(R, C))
		} else {
			model = gridAny[T]("a", R, C)
		}
		for i := range model {
			for j := range model[i] {
				m.Set(i, j, model[i][j])
			}
		}
	}
	nop := 2
	if isVec(kind) {
		nop = 3
	}
	reads := sym.Choose(2) == 1 // whether everything is also read between the writes
	for k := 0; k < ops; k++ {
		if reads {
			for i := range model {
				for j := range model[i] {
					sym.Assert(sym.Same(m.At(i, j), model[i][j]), "element reads back the last write (between writes)")
				}
			}
		}
		r, cc := index("r", R), index("c", C)
		v := sym.Val[T]("v")
		switch sym.Choose(nop) {
		case 0:
			m.Set(r, cc, v)
		case 1:
			calls := 0
			var seen T
			m.Update(r, cc, func(x T) T {
				calls++
				seen = x
				return v
			})
			sym.Assert(calls == 1, "update calls its function once")
			sym.Assert(sym.Same(seen, modelAt(model, r, cc)), "update passes the current value")
		case 2:
			m.(gb.Vector[T]).SetVec(r, v)
		}
		modelSet(model, r, cc, v)
	}
	for i := range model {
		for j := range model[i] {
			got := m.At(i, j)
			sym.Assert(sym.Same(got, model[i][j]), "element reads back the last write")
			sym.Observe(got)
		}
	}
	// a second pass in another order: reading changed nothing
	for i := R - 1; i >= 0; i-- {
		for j := range model[i] {
			sym.Assert(sym.Same(m.At(i, j), model[i][j]), "reading leaves later reads unchanged")
			if isVec(kind) {
				sym.Assert(sym.Same(m.(gb.Vector[T]).AtVec(i), model[i][j]), "vector element equals matrix element")
			}
		}
	}
}

func emptyLogical[T constraints.Type](kind string, r, c int) gb.MatrixLogical[T] {
	if kind == "dv" {
		return gb.NewDenseVector[T](r)
	}
	return gb.NewDenseMatrix[T](r, c)
}

func c01Logical[T constraints.Type](c sym.Cfg) {
	kind, R, C, ops := c.Kind[0], c.N[0], c.N[1], c.N[2]
	m := emptyLogical[T](kind, R, C)
	model := zeros[T](R, C)
	for k := 0; k < ops; k++ {
		r, cc := index("r", R), index("c", C)
		v := sym.Val[T]("v")
		switch sym.Choose(2) {
		case 0:
			m.Set(r, cc, v)
		case 1:
			calls := 0
			var seen T
			m.Update(r, cc, func(x T) T {
				calls++
				seen = x
				return v
			})
			sym.Assert(calls == 1, "update calls its function once")
			sym.Assert(sym.Same(seen, modelAt(model, r, cc)), "update passes the current value")
		}
		modelSet(model, r, cc, v)
	}
	for i := range model {
		for j := range model[i] {
			got := m.At(i, j)
			sym.Assert(sym.Same(got, model[i][j]), "element reads back the last write")
			sym.Observe(got)
		}
	}
}
