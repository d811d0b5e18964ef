package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"

	"verif/harness/sym"
)

func init() {
	Registry["C02"] = C02
	jobsOf["C02"] = func(thorough bool) []Job {
		var l []Job
		for _, typ := range allNums {
			for _, k := range allKinds {
				r, c := shape(k, 2, 2)
				if isVec(k) {
					r = 3
				}
				if typ == "int8" {
					r++
				} else if sparse(k) && !thorough {
					r--
				}
				l = append(l, mk("C02", "", typ, []string{k}, false, "arbitrary contents, one access at arbitrary machine-integer coordinates", r, c))
			}
		}
		for _, typ := range []string{"bool", "int32"} {
			l = append(l, mk("C02", "", typ, []string{"dmat"}, false, "arbitrary contents, one access at arbitrary machine-integer coordinates", 2, 3))
			l = append(l, mk("C02", "", typ, []string{"dv"}, false, "arbitrary contents, one access at arbitrary machine-integer coordinates", 3, 1))
		}
		for _, k := range allKinds {
			for _, s := range bigShapes(k, thorough) {
				l = append(l, mk("C02", "pat", "int8", []string{k}, false, itoa(len(patterns))+" patterns of stored cells with arbitrary non-zero values, one access at arbitrary machine-integer coordinates", s[0], s[1]))
			}
		}
		if thorough {
			for _, k := range matKinds {
				l = append(l, mk("C02", "", "int8", []string{k}, false, "arbitrary contents, one access at arbitrary machine-integer coordinates", 2, 3))
				l = append(l, mk("C02", "", "int8", []string{k}, false, "arbitrary contents, one access at arbitrary machine-integer coordinates", 1, 5))
			}
			for _, k := range vecKinds {
				l = append(l, mk("C02", "", "int8", []string{k}, false, "arbitrary contents, one access at arbitrary machine-integer coordinates", 6, 1))
			}
		}
		return l
	}
}

// C02 accesses a container at arbitrary coordinates: panic exactly when out of range, contents kept.
func C02(c sym.Cfg) {
	if c.Kind[0] == "dmat" || c.Kind[0] == "dv" {
		switch c.Typ {
		case "bool":
			c02Logical[bool](c)
		case "int32":
			c02Logical[rune](c)
		}
		return
	}
	switch c.Typ {
	case "int8":
		c02[int8](c)
	case "int16":
		c02[int16](c)
	case "int32":
		c02[int32](c)
	case "int64":
		c02[int64](c)
	case "int":
		c02[int](c)
	case "uint8":
		c02[uint8](c)
	case "uint16":
		c02[uint16](c)
	case "uint32":
		c02[uint32](c)
	case "uint64":
		c02[uint64](c)
	case "uint":
		c02[uint](c)
	case "uintptr":
		c02[uintptr](c)
	case "float32":
		c02[float32](c)
	case "float64":
		c02[float64](c)
	}
}

func within(i, n int) bool { return sym.And(i >= 0, i < n) }

// accessLogical performs access op and says whether its coordinates are in range.
func accessLogical[T constraints.Type](m gb.MatrixLogical[T], op, r, c int, v T) (in bool, f func()) {
	R, C := m.Rows(), m.Columns()
	both := sym.And(within(r, R), within(c, C))
	switch op {
	case 0:
		return both, func() { m.At(r, c) }
	case 1:
		return both, func() { m.Set(r, c, v) }
	case 2:
		return both, func() { m.Update(r, c, func(T) T { return v }) }
	case 3:
		return within(c, C), func() { m.ColumnsAt(c) }
	case 4:
		return within(r, R), func() { m.RowsAt(r) }
	}
	return within(r, R), func() { m.RowsAtToArray(r) }
}

func c02[T Num](c sym.Cfg) {
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	var model [][]T
	if c.Op == "pat" {
		model = pattern[T]("a", R, C, []int{0, 1, 3, 4, 6}[sym.Choose(5)])
	} else {
		model = gridAny[T]("a", R, C)
	}
	m := build(kind, model)
	r, cc := sym.Val[int]("r"), sym.Val[int]("c")
	v := sym.Val[T]("v")
	var in bool
	var f func()
	writes := false
	n := 7
	if !isVec(kind) && sparse(kind) || isVec(kind) {
		n = 9
	}
	op := sym.Choose(n)
	both := sym.And(within(r, R), within(cc, C))
	switch {
	case op < 6:
		in, f = accessLogical[T](m, op, r, cc, v)
		writes = op == 1 || op == 2
	case op == 6:
		in, f = both, func() { m.Element(r, cc) }
	case isVec(kind) && op == 7:
		in, f = within(r, R), func() { m.(gb.Vector[T]).AtVec(r) }
	case isVec(kind):
		in, f = within(r, R), func() { m.(gb.Vector[T]).SetVec(r, v) }
	case op == 7:
		in, f, writes = both, func() { m.(gb.MatrixCompressed[T]).SetReturnPointer(r, cc, v) }, true
	default:
		in, f, writes = both, func() { m.(gb.MatrixCompressed[T]).UpdateReturnPointer(r, cc, func(T) T { return v }) }, true
	}
	if isVec(kind) && op == 8 {
		writes = true
		cc = 0
	}
	p := try(f)
	sym.Assert(sym.Iff(p, sym.Not(in)), "panics exactly for out-of-range coordinates")
	if p {
		sym.Cover("out of range")
	} else {
		sym.Cover("in range")
		if writes {
			modelSet(model, r, cc, v)
		}
	}
	holds[T](m, model, "contents after the access")
	observe[T](m)
}

func c02Logical[T constraints.Type](c sym.Cfg) {
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	m := emptyLogical[T](kind, R, C)
	model := gridAny[T]("a", R, C)
	for i := range model {
		for j := range model[i] {
			m.Set(i, j, model[i][j])
		}
	}
	r, cc := sym.Val[int]("r"), sym.Val[int]("c")
	v := sym.Val[T]("v")
	op := sym.Choose(6)
	in, f := accessLogical(m, op, r, cc, v)
	p := try(f)
	sym.Assert(sym.Iff(p, sym.Not(in)), "panics exactly for out-of-range coordinates")
	if !p && (op == 1 || op == 2) {
		modelSet(model, r, cc, v)
	}
	for i := range model {
		for j := range model[i] {
			sym.Assert(sym.Same(m.At(i, j), model[i][j]), "contents after the access")
		}
	}
}
