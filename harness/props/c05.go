package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"

	"verif/harness/sym"
)

func init() {
	Registry["C05"] = C05
	Registry["C06"] = C06
	jobsOf["C05"] = func(thorough bool) []Job {
		var l []Job
		w := "arbitrary contents, extraction or copy, then one arbitrary write (or clear) on either side"
		for _, typ := range []string{"int8", "float64"} {
			for _, k := range matKinds {
				l = append(l, mk("C05", "", typ, []string{k}, false, w, 2, 2))
				if typ == "int8" {
					l = append(l, mk("C05", "", typ, []string{k}, false, w, 1, 3), mk("C05", "", typ, []string{k}, false, w, 3, 1))
				}
				if thorough {
					l = append(l, mk("C05", "", typ, []string{k}, false, w, 2, 3), mk("C05", "", typ, []string{k}, false, w, 3, 2))
				}
			}
			for _, k := range vecKinds {
				l = append(l, mk("C05", "", typ, []string{k}, false, w, 3, 1))
				if thorough {
					l = append(l, mk("C05", "", typ, []string{k}, false, w, 5, 1))
				}
			}
		}
		for _, k := range allKinds {
			for _, s := range bigShapes(k, thorough) {
				l = append(l, mk("C05", "pat", "int8", []string{k}, false, "seven patterns of stored cells (three for long shapes) with arbitrary non-zero values, extraction or copy, then one arbitrary write (or clear) on either side", s[0], s[1]))
			}
		}
		for _, typ := range []string{"bool", "int32"} {
			l = append(l, mk("C05", "", typ, []string{"dmat"}, false, w, 2, 3))
			l = append(l, mk("C05", "", typ, []string{"dv"}, false, w, 3, 1))
		}
		return l
	}
	jobsOf["C06"] = func(thorough bool) []Job {
		var l []Job
		ks := append(append([]string(nil), allKinds...), "dmatT", "dvT")
		for _, typ := range []string{"int8", "float64"} {
			for _, k := range ks {
				vec := isVec(k) || k == "dvT"
				shapes := [][2]int{{2, 2}, {1, 3}, {3, 1}}
				if typ != "int8" {
					shapes = shapes[:1]
				}
				if thorough {
					shapes = append(shapes, [2]int{2, 3}, [2]int{3, 2})
				}
				if vec {
					shapes = [][2]int{{3, 1}, {1, 1}}
				}
				for _, s := range shapes {
					for _, op := range []string{"array", "clear"} {
						l = append(l, mk("C06", op, typ, []string{k}, false, "arbitrary contents", s[0], s[1]))
					}
				}
				if typ == "int8" {
					for _, s := range bigShapes(k, thorough) {
						for _, op := range []string{"array-pat", "clear-pat"} {
							l = append(l, mk("C06", op, typ, []string{k}, false, itoa(len(patterns))+" patterns of stored cells with arbitrary non-zero values", s[0], s[1]))
						}
					}
				}
				l = append(l, mk("C06", "dims", typ, []string{k}, false, "dimensions 0..4", 4))
			}
		}
		n := 3
		if thorough {
			n = 5
		}
		for _, typ := range []string{"int8", "float64"} {
			for _, k := range []string{"dvec", "dvT"} {
				l = append(l, mk("C06", "resize", typ, []string{k}, false, "length up to the first size, arbitrary contents, two resizes to arbitrary sizes up to the second, one write in between", n, n+1))
				l = append(l, mk("C06", "resize-spare", typ, []string{k}, false, "vector built over a slice with spare capacity holding other values; length up to the first size, two resizes to arbitrary sizes up to the second, one write in between", n, n+2))
				l = append(l, mk("C06", "resize-long", typ, []string{k}, false, "length 33, three resizes among the lengths 0, 1, 16, 33, 34, 64, 65 and 100", 33))
			}
		}
		return l
	}
}

// ---- C05

func C05(c sym.Cfg) {
	switch c.Kind[0] {
	case "dmat", "dv":
		if c.Typ == "bool" {
			c05Logical[bool](c)
		} else {
			c05Logical[rune](c)
		}
		return
	}
	switch c.Typ {
	case "int8":
		c05[int8](c)
	case "int16":
		c05[int16](c)
	case "int32":
		c05[int32](c)
	case "int64":
		c05[int64](c)
	case "int":
		c05[int](c)
	case "uint8":
		c05[uint8](c)
	case "uint16":
		c05[uint16](c)
	case "uint32":
		c05[uint32](c)
	case "uint64":
		c05[uint64](c)
	case "uint":
		c05[uint](c)
	case "uintptr":
		c05[uintptr](c)
	case "float32":
		c05[float32](c)
	case "float64":
		c05[float64](c)
	}
}

// place is an arbitrary index, of a long range one of five.
func place(name string, n int) int {
	if n <= 4 {
		return index(name, n)
	}
	return []int{0, 1, n / 2, n - 2, n - 1}[sym.Choose(5)]
}

// grab extracts something from m: its expected snapshot, a reader, a writer and a way to clear it.
func grab[T constraints.Type](m gb.MatrixLogical[T], model [][]T, op int) (snap [][]T, rows, cols int, at func(i, j int) T, set func(i, j int, v T), z gb.MatrixLogical[T]) {
	R, C := len(model), width(model)
	switch op {
	case 0:
		r := place("row", R)
		v := m.RowsAt(r)
		var zero T
		snap = zeros[T](C, 1)
		for j := 0; j < C; j++ {
			x := zero
			for i := 0; i < R; i++ {
				x = sym.Ite(i == r, model[i][j], x)
			}
			snap[j][0] = x
		}
		sym.Assert(v.Length() == C && v.Rows() == C && v.Columns() == 1, "a row has one element per column")
		return snap, C, 1, func(i, _ int) T { return v.AtVec(i) }, nil, v
	case 1:
		c := place("col", C)
		v := m.ColumnsAt(c)
		snap = zeros[T](R, 1)
		for i := 0; i < R; i++ {
			x := model[i][0]
			for j := 0; j < C; j++ {
				x = sym.Ite(j == c, model[i][j], x)
			}
			snap[i][0] = x
		}
		sym.Assert(v.Length() == R && v.Rows() == R && v.Columns() == 1, "a column has one element per row")
		return snap, R, 1, func(i, _ int) T { return v.AtVec(i) }, nil, v
	case 2:
		r := place("row", R)
		a := m.RowsAtToArray(r)
		snap = zeros[T](C, 1)
		for j := 0; j < C; j++ {
			x := model[0][j]
			for i := 0; i < R; i++ {
				x = sym.Ite(i == r, model[i][j], x)
			}
			snap[j][0] = x
		}
		sym.Assert(len(a) == C, "a row array has one element per column")
		return snap, C, 1, func(i, _ int) T { return a[i] }, func(i, _ int, x T) { a[i] = x }, nil
	}
	m2 := m.CopyLogical()
	sym.Assert(m2.Rows() == R && m2.Columns() == C, "a copy has the same dimensions")
	return clone(model), R, C, m2.At, nil, m2
}

func c05[T Num](c sym.Cfg) {
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	var model [][]T
	if c.Op == "pat" {
		p := []int{0, 1, 3, 4, 6, 8, 12}[sym.Choose(7)]
		if R >= 32 || C >= 32 {
			p = somePattern(R, C)
		}
		model = pattern[T]("a", R, C, p)
	} else {
		model = gridAny[T]("a", R, C)
	}
	m := build(kind, model)
	if sym.Choose(5) == 4 {
		m2 := m.Copy()
		sym.Assert(m2.Rows() == R && m2.Columns() == C, "a copy has the same dimensions")
		c05Check[T](m, model, clone(model), R, C, m2.At, nil, m2)
		return
	}
	c05Run[T](m, model)
}

func c05Logical[T constraints.Type](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	m := emptyLogical[T](c.Kind[0], R, C)
	model := gridAny[T]("a", R, C)
	for i := range model {
		for j := range model[i] {
			m.Set(i, j, model[i][j])
		}
	}
	c05Run(m, model)
}

func c05Run[T constraints.Type](m gb.MatrixLogical[T], model [][]T) {
	snap, rows, cols, at, set, z := grab(m, model, sym.Choose(4))
	c05Check(m, model, snap, rows, cols, at, set, z)
}

// writeAt writes an arbitrary value to a cell in one of the ways there are.
func writeAt[T constraints.Type](m gb.MatrixLogical[T], model [][]T, r, c int) {
	v := sym.Val[T]("v")
	if len(model)*width(model) > 12 {
		if sym.Choose(2) == 0 {
			m.Set(r, c, v)
		} else {
			m.Update(r, c, func(T) T { return v })
		}
		modelSet(model, r, c, v)
		return
	}
	switch w := m.(type) {
	case interface {
		SetReturnPointer(r, c int, value T) (pointer int, start int)
		UpdateReturnPointer(r, c int, f func(T) T) (pointer int, start int)
	}:
		switch sym.Choose(4) {
		case 0:
			m.Set(r, c, v)
		case 1:
			m.Update(r, c, func(T) T { return v })
		case 2:
			w.SetReturnPointer(r, c, v)
		case 3:
			w.UpdateReturnPointer(r, c, func(T) T { return v })
		}
	case interface{ SetVec(i int, value T) }:
		switch sym.Choose(3) {
		case 0:
			m.Set(r, c, v)
		case 1:
			m.Update(r, c, func(T) T { return v })
		case 2:
			w.SetVec(r, v)
		}
	default:
		if sym.Choose(2) == 0 {
			m.Set(r, c, v)
		} else {
			m.Update(r, c, func(T) T { return v })
		}
	}
	modelSet(model, r, c, v)
}

func c05Check[T constraints.Type](m gb.MatrixLogical[T], model, snap [][]T, rows, cols int, at func(i, j int) T, set func(i, j int, v T), z gb.MatrixLogical[T]) {
	R, C := len(model), width(model)
	var zero T
	check := func(msg string) {
		for i := 0; i < rows; i++ {
			for j := 0; j < cols; j++ {
				sym.Assert(sym.Same(at(i, j), snap[i][j]), "extracted elements equal the source's at that moment"+msg)
			}
		}
		for i := 0; i < R; i++ {
			for j := 0; j < C; j++ {
				sym.Assert(sym.Same(m.At(i, j), model[i][j]), "the source keeps its elements"+msg)
			}
		}
	}
	check("")
	switch sym.Choose(4) {
	case 0: // write the source
		writeAt(m, model, place("r", R), place("c", C))
	case 1: // write the extracted object
		r, c := place("r", rows), place("c", cols)
		if z != nil {
			writeAt(z, snap, r, c)
			break
		}
		v := sym.Val[T]("v")
		set(r, c, v)
		modelSet(snap, r, c, v)
	case 2:
		m.Clear()
		for i := range model {
			for j := range model[i] {
				model[i][j] = zero
			}
		}
	case 3:
		if z != nil {
			z.Clear()
			for i := range snap {
				for j := range snap[i] {
					snap[i][j] = zero
				}
			}
		}
	}
	check(" (after a write on one side)")
}

// ---- C06

func C06(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c06[int8](c)
	case "int16":
		c06[int16](c)
	case "int32":
		c06[int32](c)
	case "int64":
		c06[int64](c)
	case "int":
		c06[int](c)
	case "uint8":
		c06[uint8](c)
	case "uint16":
		c06[uint16](c)
	case "uint32":
		c06[uint32](c)
	case "uint64":
		c06[uint64](c)
	case "uint":
		c06[uint](c)
	case "uintptr":
		c06[uintptr](c)
	case "float32":
		c06[float32](c)
	case "float64":
		c06[float64](c)
	}
}

func flat[T any](g [][]T) []T {
	a := make([]T, len(g))
	for i := range g {
		a[i] = g[i][0]
	}
	return a
}

func fromArray[T Num](kind string, g [][]T) gb.MatrixLogical[T] {
	switch kind {
	case "dense":
		return gb.NewDenseMatrixFromArrayN(g)
	case "dmatT":
		return gb.NewDenseMatrixFromArray(g)
	case "csr":
		return gb.NewCSRMatrixFromArray(g)
	case "csc":
		return gb.NewCSCMatrixFromArray(g)
	case "dvec":
		return gb.NewDenseVectorFromArrayN(flat(g))
	case "dvT":
		return gb.NewDenseVectorFromArray(flat(g))
	}
	return gb.NewSparseVectorFromArray(flat(g))
}

func emptyAny[T Num](kind string, r, c int) gb.MatrixLogical[T] {
	switch kind {
	case "dmatT":
		return gb.NewDenseMatrix[T](r, c)
	case "dvT":
		return gb.NewDenseVector[T](r)
	}
	return empty[T](kind, r, c)
}

type lengther interface{ Length() int }

func dims[T Num](m gb.MatrixLogical[T], r, c int, msg string) {
	sym.Assert(m.Rows() == r && m.Columns() == c, "dimensions "+msg)
	sym.Assert(m.Size() == r*c, "size "+msg)
	if v, ok := m.(lengther); ok {
		sym.Assert(v.Length() == r, "length "+msg)
	}
}

// usable writes an arbitrary cell and checks contents, count and enumeration.
func usable[T Num](m gb.MatrixLogical[T], model [][]T, sp bool) {
	R := len(model)
	if R == 0 || width(model) == 0 {
		return
	}
	r, c, v := index("r", R), index("c", width(model)), sym.Val[T]("v")
	if sym.Choose(2) == 0 {
		m.Set(r, c, v)
	} else {
		m.Update(r, c, func(T) T { return v })
	}
	modelSet(model, r, c, v)
	dims(m, R, width(model), "after a write")
	holds(m, model, "contents after a write")
	c03Check(m, model, sp)
}

// spare gives a slice equal to a flat column vector whose spare capacity holds arbitrary values.
func spare[T Num](g [][]T, extra int) []T {
	a := flat(g)
	for ; extra > 0; extra-- {
		a = append(a, nonzero[T]("spare"))
	}
	return a[:len(g)]
}

func c06[T Num](c sym.Cfg) {
	kind := c.Kind[0]
	op, pat := cut(c.Op, "-pat")
	contents := func() [][]T {
		if pat {
			return pattern[T]("a", c.N[0], c.N[1], somePattern(c.N[0], c.N[1]))
		}
		return gridAny[T]("a", c.N[0], c.N[1])
	}
	vec := isVec(kind) || kind == "dvT"
	switch op {
	case "dims":
		r, k := sym.Choose(c.N[0]+1), 1
		if !vec {
			k = sym.Choose(c.N[0] + 1)
		}
		m := emptyAny[T](kind, r, k)
		dims(m, r, k, "of an empty container")
		n := 0
		for it := m.Enumerate(); it.HasNext() && n <= r*k; n++ {
			_, _, v := it.Next()
			sym.Assert(v == 0, "a fresh container holds zeros")
		}
		if sparse(kind) {
			sym.Assert(n == 0 && m.Values() == 0, "a fresh sparse container stores nothing")
		} else {
			sym.Assert(n == r*k && m.Values() == r*k, "a fresh dense container stores every cell")
		}
		model := zeros[T](r, k)
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				sym.Assert(m.At(i, j) == 0, "a fresh container holds zeros")
			}
		}
		usable(m, model, sparse(kind))
		m.Clear()
		dims(m, r, k, "after clearing")
	case "array":
		model := contents()
		m := fromArray(kind, clone(model))
		dims(m, c.N[0], c.N[1], "of a container built from an array")
		holds(m, model, "contents of a container built from an array")
		c03Check(m, model, sparse(kind))
	case "clear":
		model := contents()
		m := fromArray(kind, clone(model))
		m.Clear()
		dims(m, c.N[0], c.N[1], "after clearing")
		z := zeros[T](c.N[0], c.N[1])
		holds(m, z, "contents after clearing")
		c03Check(m, z, sparse(kind))
		usable(m, z, sparse(kind))
	case "resize", "resize-spare", "resize-long":
		n := c.N[0]
		if op != "resize-long" {
			n = sym.Choose(c.N[0]) + 1
		}
		model := gridAny[T]("a", n, 1)
		m := fromArray(kind, clone(model))
		if op == "resize-spare" {
			if kind == "dvec" {
				m = gb.NewDenseVectorFromArrayN(spare(model, 3))
			} else {
				m = gb.NewDenseVectorFromArray(spare(model, 3))
			}
		}
		rs := m.(interface{ ReSize(int) int })
		steps := 2
		if op == "resize-long" {
			steps = 3
		}
		for k := 0; k < steps; k++ {
			var s int
			if op == "resize-long" {
				s = []int{0, 1, 16, 33, 34, 64, 65, 100}[sym.Choose(8)]
			} else {
				s = sym.Choose(c.N[1] + 1)
			}
			got := rs.ReSize(s)
			sym.Assert(got == s, "resizing reports the new length")
			old := model
			model = zeros[T](s, 1)
			for i := 0; i < s && i < len(old); i++ {
				model[i][0] = old[i][0]
			}
			dims(m, s, 1, "after resizing")
			if s > 0 && op == "resize-long" {
				holds(m, model, "contents after resizing")
				i := []int{0, s / 2, s - 1}[sym.Choose(3)]
				model[i][0] = sym.Val[T]("v")
				m.Set(i, 0, model[i][0])
				holds(m, model, "contents after a write")
			} else if s > 0 {
				holds(m, model, "contents after resizing")
				usable(m, model, false)
			}
		}
		m.Clear()
		dims(m, len(model), 1, "after clearing")
		for i := range model {
			sym.Assert(m.At(i, 0) == 0, "contents after clearing")
		}
	}
}
