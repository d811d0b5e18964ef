package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/unaryop"

	"verif/harness/sym"
)

func init() {
	Registry["C03"] = C03
	Registry["C04"] = C04
	shapes := func(fn, what string, types []string, thorough bool) []Job {
		var l []Job
		add := func(typ, k string, r, c, w int) {
			l = append(l, mk(fn, "", typ, []string{k}, false, what, r, c, w))
		}
		for _, typ := range types {
			for _, k := range matKinds {
				if typ == "int8" {
					add(typ, k, 2, 2, 1)
					add(typ, k, 3, 2, 0)
					add(typ, k, 2, 3, 0)
					add(typ, k, 1, 4, 0)
					add(typ, k, 4, 1, 0)
					if thorough {
						add(typ, k, 3, 3, 0)
						add(typ, k, 2, 3, 1)
						add(typ, k, 3, 2, 1)
						add(typ, k, 2, 2, 2)
						add(typ, k, 5, 1, 1)
					}
				} else {
					add(typ, k, 2, 2, 0)
				}
			}
			for _, k := range vecKinds {
				if typ == "int8" {
					add(typ, k, 4, 1, 1)
					add(typ, k, 5, 1, 0)
					if thorough {
						add(typ, k, 6, 1, 1)
						add(typ, k, 8, 1, 0)
					}
				} else {
					add(typ, k, 3, 1, 0)
				}
			}
			if typ != "int8" {
				continue
			}
			for _, k := range allKinds {
				for _, s := range bigShapes(k, thorough) {
					w := 1
					if fn == "C04" {
						w = 0
					}
					l = append(l, mk(fn, "pat", typ, []string{k}, false, itoa(len(patterns))+" patterns of stored cells with arbitrary non-zero values, then arbitrary writes (last size), then full enumeration, or a map to zeros in one of five patterns and arbitrary non-zero values elsewhere, any one result arbitrary", s[0], s[1], w))
				}
			}
		}
		return l
	}
	jobsOf["C03"] = func(thorough bool) []Job {
		l := shapes("C03", "arbitrary contents, then arbitrary writes (last size), then full enumeration", allNums, thorough)
		what := "the result of every operation that produces a container, arbitrary contents"
		for _, k := range allKinds {
			for _, typ := range []string{"int8", "uint8", "float64"} {
				if isVec(k) {
					l = append(l, mk("C03", "producer", typ, []string{k}, typ == "float64", what, 3, 1))
					continue
				}
				l = append(l, mk("C03", "producer", typ, []string{k}, typ == "float64", what, 2, 2))
				if typ == "int8" {
					l = append(l, mk("C03", "producer", typ, []string{k}, false, what, 1, 3), mk("C03", "producer", typ, []string{k}, false, what, 3, 1))
				}
			}
			for _, s := range bigShapes(k, thorough) {
				l = append(l, mk("C03", "producer-pat", "int8", []string{k}, false, "the result of every operation that produces a container; patterns of stored cells", s[0], s[1]))
			}
		}
		for _, k := range allKinds {
			r, c := shape(k, 2, 2)
			if isVec(k) {
				r = 4
			}
			l = append(l, mk("C03", "two", "int8", []string{k}, false, "arbitrary non-zero values in patterns of stored cells, two iterators at once stepped in any order", r, c))
		}
		for _, typ := range []string{"bool", "int32"} {
			l = append(l, mk("C03", "", typ, []string{"dmat"}, false, "arbitrary contents, full enumeration", 2, 3, 0))
			l = append(l, mk("C03", "", typ, []string{"dv"}, false, "arbitrary contents, full enumeration", 3, 1, 0))
		}
		return l
	}
	jobsOf["C04"] = func(thorough bool) []Job {
		return shapes("C04", "arbitrary contents, then arbitrary writes (last size), then a full map to arbitrary values", []string{"int8", "uint8", "float64"}, thorough)
	}
}

// arbitrary builds a container with arbitrary contents reached by writing every cell and then w arbitrary cells.
func arbitrary[T Num](kind string, R, C, w int) (gb.Matrix[T], [][]T) {
	model := gridAny[T]("a", R, C)
	m := build(kind, model)
	for ; w > 0; w-- {
		write(m, model)
	}
	return m, model
}

// write writes an arbitrary value to an arbitrary cell in one of the ways there are.
func write[T Num](m gb.Matrix[T], model [][]T) {
	r, c, v := index("r", len(model)), index("c", width(model)), sym.Val[T]("v")
	n := 2
	vec, isvec := m.(gb.Vector[T])
	comp, iscomp := m.(gb.MatrixCompressed[T])
	if isvec {
		n = 3
	} else if iscomp {
		n = 4
	}
	switch k := sym.Choose(n); {
	case k == 0:
		m.Set(r, c, v)
	case k == 1:
		m.Update(r, c, func(T) T { return v })
	case isvec:
		vec.SetVec(r, v)
	case k == 2:
		comp.SetReturnPointer(r, c, v)
	default:
		comp.UpdateReturnPointer(r, c, func(T) T { return v })
	}
	modelSet(model, r, c, v)
}

// start builds the starting container of a job: arbitrary contents or a pattern, and arbitrary writes.
func start[T Num](c sym.Cfg) (gb.Matrix[T], [][]T) {
	if c.Op == "history" {
		m, _ := history[T](c)
		return m, content[T](m)
	}
	if c.Op != "pat" {
		return arbitrary[T](c.Kind[0], c.N[0], c.N[1], c.N[2])
	}
	model := pattern[T]("a", c.N[0], c.N[1], somePattern(c.N[0], c.N[1]))
	m := build(c.Kind[0], model)
	for w := c.N[2]; w > 0; w-- {
		write(m, model)
	}
	return m, model
}

// produced applies one operation that produces a container.
func produced[T Num](m gb.Matrix[T], model [][]T, other string) (z gb.MatrixLogical[T], sp bool) {
	R, C := len(model), width(model)
	sp = isSparse[T](m)
	y := constant[T](R, C, 4, 3)
	switch sym.Choose(17) {
	case 0:
		return m.Scalar(sym.Ite(sym.Bool("scalar"), T(64), T(0))), sp
	case 1:
		z := m.Negative()
		return z, isSparse[T](z)
	case 2:
		z := m.Transpose()
		return z, isSparse[T](z)
	case 3:
		return m.CopyLogical(), sp
	case 4:
		z := m.RowsAt(sym.Choose(R))
		return z, isSparse[T](z)
	case 5:
		z := m.ColumnsAt(sym.Choose(C))
		return z, isSparse[T](z)
	case 6:
		z := gb.TransposeToCSR(bg, m)
		return z, true
	case 7:
		z := gb.TransposeToCSC(bg, m)
		return z, true
	case 8: // cancels every element
		y = clone(model)
		for i := range y {
			for j := range y[i] {
				y[i][j] = -y[i][j]
			}
		}
		z := m.Add(build(other, y))
		return z, isSparse[T](z)
	case 9:
		z := m.Subtract(build(other, model))
		return z, isSparse[T](z)
	case 10:
		z := m.Subtract(m)
		return z, isSparse[T](z)
	case 11:
		z := m.Multiply(build("csr", constant[T](C, 2, 4, 1)))
		return z, isSparse[T](z)
	case 12:
		runOp[T](bg, "apply", m, nil, m, nil, unaryop.NewUnaryOp(func(v T) T { return sym.Ite(v == 2, T(0), v+T(1)) }))
		return m, sp
	case 13:
		d := build(m2kind(other, m), y)
		op := "emul"
		if _, ok := m.(gb.Vector[T]); ok {
			op = "emulv"
		}
		runOp[T](bg, op, m, build(m2kind(other, m), constant[T](R, C, 8, 2)), d, nil, nil)
		return d, isSparse[T](d)
	case 14:
		d := build(m2kind(other, m), y)
		runOp[T](bg, "negative", m, nil, d, nil, nil)
		return d, isSparse[T](d)
	case 15:
		d := empty[T](m2kind(other, m), R, C)
		runOp[T](bg, "apply", m, nil, d, nil, unaryop.NewUnaryOp(func(v T) T { return v - 1 }))
		return d, isSparse[T](d)
	}
	if isVec(other) {
		return m.Copy(), sp
	}
	d := build(other, constant[T](C, R, 0, 1))
	runOp[T](bg, "transpose", m, nil, d, nil, nil)
	return d, isSparse[T](d)
}

// m2kind picks a storage format of the same sort (matrix or vector) as m.
func m2kind[T Num](other string, m gb.Matrix[T]) string {
	if _, ok := m.(gb.Vector[T]); ok && !isVec(other) {
		return "svec"
	}
	return other
}

func isSparse[T Num](m gb.MatrixLogical[T]) bool {
	switch m.(type) {
	case *gb.CSRMatrix[T], *gb.CSCMatrix[T], *gb.SparseVector[T]:
		return true
	}
	return false
}

func C03(c sym.Cfg) {
	switch c.Kind[0] {
	case "dmat", "dv":
		if c.Typ == "bool" {
			c03Logical[bool](c)
		} else {
			c03Logical[rune](c)
		}
		return
	}
	switch c.Typ {
	case "int8":
		c03[int8](c)
	case "int16":
		c03[int16](c)
	case "int32":
		c03[int32](c)
	case "int64":
		c03[int64](c)
	case "int":
		c03[int](c)
	case "uint8":
		c03[uint8](c)
	case "uint16":
		c03[uint16](c)
	case "uint32":
		c03[uint32](c)
	case "uint64":
		c03[uint64](c)
	case "uint":
		c03[uint](c)
	case "uintptr":
		c03[uintptr](c)
	case "float32":
		c03[float32](c)
	case "float64":
		c03[float64](c)
	}
}

func c03[T Num](c sym.Cfg) {
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	if c.Op == "producer" || c.Op == "producer-pat" {
		var model [][]T
		if c.Op == "producer" {
			model = grid[T]("a", R, C)
		} else {
			model = constantWith[T]("a", R, C, somePattern(R, C), 1, 2)
		}
		other := matKinds[sym.Choose(3)]
		if isVec(kind) {
			other = vecKinds[sym.Choose(2)]
		}
		z, sp := produced(build(kind, model), model, other)
		c03Check(z, content(z), sp)
		return
	}
	switch c.Op {
	case "huge":
		huge(c, func(m gb.Matrix[T], model [][]T, r, cc int, v T, p int) { c03Check[T](m, model, sparse(kind)) })
		return
	case "two":
		c03Two[T](c)
		return
	case "history":
		c03History[T](c)
		return
	case "phases":
		phases(c, func(m gb.Matrix[T], model [][]T) { c03Check[T](m, content[T](m), sparse(kind)) })
		return
	}
	m, model := start[T](c)
	c03Check[T](m, model, sparse(kind))
	holds[T](m, model, "enumeration leaves the contents alone")
}

// c03Two steps two iterators of one container in an arbitrary order, asking either any number of times for more.
func c03Two[T Num](c sym.Cfg) {
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	var model [][]T
	if kind == "dense" || kind == "dvec" {
		model = grid[T]("a", R, C)
	} else {
		model = pattern[T]("a", R, C, []int{0, 2, 3, 8}[sym.Choose(4)])
	}
	m := build(kind, model)
	its := []gb.Enumerate[T]{m.Enumerate(), m.Enumerate()}
	seen := [][][]int{zeros[int](R, C), zeros[int](R, C)}
	n := 0
	for {
		k := sym.Choose(2)
		if !its[k].HasNext() {
			k = 1 - k
			if !its[k].HasNext() {
				break
			}
		}
		n++
		sym.Assert(n <= 2*R*C, "no more visits than cells")
		if n > 2*R*C {
			return
		}
		r, c, v := its[k].Next()
		ok := sym.And(within(r, R), within(c, C))
		sym.Assert(ok, "visited coordinates are in range")
		if !ok {
			return
		}
		seen[k][r][c]++
		sym.Assert(sym.Same(v, model[r][c]), "the reported value is the cell's")
	}
	for _, g := range seen {
		for i := range g {
			for j := range g[i] {
				if sparse(kind) {
					sym.Assert(sym.Iff(g[i][j] == 1, model[i][j] != 0), "each iterator visits exactly the non-zero cells")
				} else {
					sym.Assert(g[i][j] == 1, "each iterator visits every cell once")
				}
			}
		}
	}
}

func c03Logical[T constraints.Type](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	m := emptyLogical[T](c.Kind[0], R, C)
	model := gridAny[T]("a", R, C)
	for i := range model {
		for j := range model[i] {
			m.Set(i, j, model[i][j])
		}
	}
	c03Check(m, model, false)
}

func c03Check[T constraints.Type](m gb.MatrixLogical[T], model [][]T, sp bool) {
	R, C := len(model), width(model)
	visited := zeros[int](R, C)
	n := 0
	var zero T
	for it := m.Enumerate(); it.HasNext(); {
		n++
		sym.Assert(n <= R*C, "no more visits than cells")
		if n > R*C {
			return
		}
		r, c, v := it.Next()
		ok := sym.And(within(r, R), within(c, C))
		sym.Assert(ok, "visited coordinates are in range")
		if !ok {
			return
		}
		visited[r][c]++
		sym.Assert(sym.Same(v, model[r][c]), "the reported value is the cell's")
		sym.Observe(r, c, v)
	}
	sym.Assert(m.Values() == n, "the element count equals the number of visits")
	for i := range visited {
		for j := range visited[i] {
			sym.Assert(visited[i][j] <= 1, "no cell is visited twice")
			if sp {
				sym.Assert(sym.Iff(visited[i][j] == 1, model[i][j] != zero), "sparse containers visit exactly the non-zero cells")
			} else {
				sym.Assert(visited[i][j] == 1, "dense containers visit every cell")
			}
		}
	}
}

func C04(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c04[int8](c)
	case "int16":
		c04[int16](c)
	case "int32":
		c04[int32](c)
	case "int64":
		c04[int64](c)
	case "int":
		c04[int](c)
	case "uint8":
		c04[uint8](c)
	case "uint16":
		c04[uint16](c)
	case "uint32":
		c04[uint32](c)
	case "uint64":
		c04[uint64](c)
	case "uint":
		c04[uint](c)
	case "uintptr":
		c04[uintptr](c)
	case "float32":
		c04[float32](c)
	case "float64":
		c04[float64](c)
	}
}

func c04[T Num](c sym.Cfg) {
	kind, R, C, op := c.Kind[0], c.N[0], c.N[1], c.Op
	m, model := start[T](c)
	after := clone(model)
	calls := zeros[int](R, C)
	n := 0
	away, free := 0, 0
	if c.Op == "history" {
		op = "pat"
		away, free = []int{1, 2, 8}[sym.Choose(3)], R*C-1
	}
	if c.Op == "pat" {
		if R*C >= 200 {
			away, free = []int{1, 2, 8}[sym.Choose(3)], []int{0, R*C/2 - 1, R*C - 1}[sym.Choose(3)]
		} else {
			away, free = []int{0, 1, 2, 4, 8}[sym.Choose(5)], sym.Choose(R*C)
		}
	}
	for it := m.Map(); it.HasNext(); {
		n++
		sym.Assert(n <= R*C, "no more calls than cells")
		if n > R*C {
			return
		}
		inner := 0
		it.Map(func(r, c int, v T) T {
			inner++
			ret := sym.Val[T]("f")
			ok := sym.And(within(r, R), within(c, C))
			sym.Assert(ok, "mapped coordinates are in range")
			if !ok {
				return ret
			}
			if op == "pat" && r*C+c != free {
				if patterns[away](r, c, R, C) {
					ret = 0
				} else {
					sym.Assume(ret != 0)
				}
			}
			calls[r][c]++
			sym.Assert(sym.Same(v, model[r][c]), "the function gets the old value")
			after[r][c] = ret
			return ret
		})
		sym.Assert(inner == 1, "one step maps one element")
	}
	for i := range calls {
		for j := range calls[i] {
			sym.Assert(calls[i][j] <= 1, "no element is mapped twice")
			if sparse(kind) {
				sym.Assert(sym.Iff(calls[i][j] == 1, model[i][j] != 0), "exactly the elements present at the start are mapped")
			} else {
				sym.Assert(calls[i][j] == 1, "every cell of a dense container is mapped")
			}
		}
	}
	holds[T](m, after, "each mapped element equals what the function returned, the others are unchanged")
	c03Check[T](m, after, sparse(kind))
	observe[T](m)
}
