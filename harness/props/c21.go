package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"

	"verif/harness/sym"
)

func init() {
	Registry["C21"] = C21
	Registry["C22"] = C22
	Registry["C23"] = C23
	Registry["C24"] = C24
	jobsOf["C21"] = func(thorough bool) []Job {
		var l []Job
		what := "every graph with arbitrary non-negative weights, every source, every accepted level and none"
		for _, k := range matKinds {
			for n := 1; n <= 3; n++ {
				l = append(l, mk("C21", "", "float64", []string{k}, true, what, n))
			}
			for _, typ := range []string{"int8", "uint64"} {
				l = append(l, mk("C21", "", typ, []string{k}, false, "every graph with weights 0, 1 and 2, every source, every accepted level and none", 2))
				if thorough {
					l = append(l, mk("C21", "", typ, []string{k}, false, "every graph with weights 0, 1 and 2, every source, every accepted level and none", 3))
				}
			}
			if thorough {
				l = append(l, mk("C21", "", "float64", []string{k}, true, "every graph with arbitrary non-negative weights, source 0, no level accepted", 4))
			}
			l = append(l, mk("C21", "large", "float64", []string{k}, true, "a path with shortcuts and a patterned graph with weights 1 and three arbitrary positive ones, sources first and 33rd, level 3 accepted", 41))
			sizes := []int{4, 5, 7}
			if thorough {
				sizes = append(sizes, 6, 9, 12)
			}
			for _, n := range sizes {
				l = append(l, mk("C21", "pat", "float64", []string{k}, true, "paths, cycles, stars, complete and other patterned graphs with arbitrary positive weights and one arbitrary edge (its weight 0 or more), every source, level 2 or none accepted", n))
			}
		}
		return l
	}
	jobsOf["C22"] = func(thorough bool) []Job {
		var l []Job
		add := func(typ string, k []string, r, kk, c, cross, preempt int) {
			what := "arbitrary operands; "
			if preempt < 0 {
				what += "all interleavings"
			} else {
				what += "at most " + itoa(preempt) + " scheduling decisions off the default"
			}
			j := mk("C22", "", typ, k, true, what+" (rows, inner, columns, crossover)", r, kk, c, cross)
			j.Cfg.Preempt = preempt
			l = append(l, j)
		}
		for _, k := range combos(matKinds, 2) {
			for _, s := range [][4]int{{1, 1, 1, 1}, {1, 1, 1, 0}, {2, 2, 2, 2}, {1, 2, 1, 1}, {2, 1, 2, 0}, {1, 2, 2, 1}, {2, 2, 1, 1}} {
				add("int8", k, s[0], s[1], s[2], s[3], -1)
			}
			if k[0] == "dense" || k[1] == "dense" {
				add("float64", k, 2, 2, 2, 1, 0)
			}
			add("int8", k, 1, 2, 3, 64, -1)
			if thorough {
				add("float64", k, 2, 2, 2, 0, 1)
			}
		}
		dd := []string{"dense", "dense"}
		add("float64", dd, 2, 2, 2, 1, -1)
		add("float64", dd, 3, 3, 3, 1, -1)
		add("float64", dd, 3, 3, 3, 2, -1)
		add("float64", dd, 3, 2, 3, 1, -1)
		add("float64", dd, 2, 3, 2, 1, -1)
		add("float64", dd, 4, 4, 4, 2, 1)
		add("float64", dd, 4, 4, 4, 1, 0)
		add("float64", dd, 4, 4, 2, 1, 0)
		add("float64", dd, 2, 4, 4, 1, 0)
		add("int8", dd, 2, 2, 2, 1, 0)
		for i, k := range combos(matKinds, 2) {
			for j, s := range [][2]int{{6, 3}, {6, 1}, {8, 4}, {8, 2}, {10, 5}, {4, 1}, {7, 3}, {12, 3}} {
				if (i+j)%3 != 0 && i != 0 && !thorough {
					continue
				}
				q := mk("C22", "pat", "int16", k, false, "patterns of stored cells, one arbitrary value among constants in each operand; default schedule (rows, inner, columns, crossover)", s[0], s[0], s[0], s[1])
				q.Cfg.Preempt = 0
				l = append(l, q)
			}
		}
		if thorough {
			add("int8", dd, 2, 2, 2, 1, -1)
			add("float64", dd, 5, 5, 5, 1, -1)
			add("float64", dd, 6, 6, 6, 3, 0)
			add("float64", dd, 6, 6, 6, 1, 0)
			add("float64", dd, 4, 4, 4, 1, 1)
			add("int16", dd, 2, 2, 2, 1, 0)
			add("uint8", dd, 2, 2, 2, 1, 0)
		}
		for _, k := range [][]string{{"dense", "dvec"}, {"csr", "svec"}} {
			add("int8", k, 2, 2, 1, 1, -1)
			add("int8", k, 1, 1, 1, 0, -1)
		}
		l = append(l, mk("C22", "default", "int8", dd, false, "arbitrary operands; default crossover", 2, 2, 2, 64), mk("C22", "default", "int8", []string{"csr", "csc"}, false, "arbitrary operands; default crossover", 2, 1, 2, 64))
		return l
	}
	jobsOf["C23"] = func(thorough bool) []Job {
		var l []Job
		for _, k := range matKinds {
			for _, s := range [][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}} {
				l = append(l, mk("C23", "", "float64", []string{k}, true, "arbitrary contents", s[0], s[1]))
			}
			if thorough {
				for _, s := range [][2]int{{3, 2}, {1, 4}, {4, 1}, {2, 4}, {3, 3}} {
					l = append(l, mk("C23", "", "float64", []string{k}, true, "arbitrary contents", s[0], s[1]))
				}
			}
			// larger shapes with entries 0, 1 and 2
			l = append(l, mk("C23", "small", "float64", []string{k}, true, "contents 0 and 1", 3, 2), mk("C23", "small", "float64", []string{k}, true, "contents 0 and 1", 2, 3))
			if thorough {
				l = append(l, mk("C23", "small", "float64", []string{k}, true, "contents 0 and 1", 3, 3))
			}
		}
		for _, k := range matKinds {
			shapes := [][2]int{{3, 3}, {3, 5}, {5, 3}, {1, 6}}
			if thorough {
				shapes = append(shapes, [2]int{4, 4}, [2]int{5, 5}, [2]int{4, 6}, [2]int{6, 4})
			}
			for _, s := range shapes {
				l = append(l, mk("C23", "pat", "float64", []string{k}, true, "patterns of stored cells, one arbitrary value among constants", s[0], s[1]))
			}
		}
		l = append(l, mk("C23", "formats", "float64", matKinds, true, "arbitrary contents in all formats", 2, 2))
		if thorough {
			for _, k := range matKinds {
				shapes := [][2]int{{3, 3}, {3, 5}, {5, 3}, {1, 6}}
				if thorough {
					shapes = append(shapes, [2]int{4, 4}, [2]int{5, 5}, [2]int{4, 6}, [2]int{6, 4})
				}
				for _, s := range shapes {
					l = append(l, mk("C23", "pat", "float64", []string{k}, true, "patterns of stored cells, one arbitrary value among constants", s[0], s[1]))
				}
			}
			l = append(l, mk("C23", "formats", "float64", matKinds, true, "arbitrary contents in all formats", 2, 3))
		}
		return l
	}
	jobsOf["C24"] = func(thorough bool) []Job {
		var l []Job
		for _, op := range []string{"symmetric", "skew"} {
			for _, k := range matKinds {
				for _, typ := range []string{"int8", "uint8", "float64"} {
					shapes := [][2]int{{1, 1}, {2, 2}, {1, 2}, {2, 1}, {2, 3}, {3, 2}}
					if typ == "int8" || thorough {
						shapes = append(shapes, [2]int{3, 3})
					}
					for _, s := range shapes {
						l = append(l, mk("C24", op, typ, []string{k}, false, "arbitrary contents", s[0], s[1]))
					}
				}
				l = append(l, mk("C24", op, "float64", []string{k}, true, "arbitrary contents", 3, 3))
				if thorough {
					l = append(l, mk("C24", op, "int8", []string{k}, false, "arbitrary contents", 4, 4))
				}
			}
			for _, k := range matKinds {
				shapes := [][2]int{{4, 4}, {5, 5}, {6, 6}, {4, 7}, {7, 4}}
				if thorough {
					shapes = append(shapes, [2]int{7, 7}, [2]int{9, 9}, [2]int{10, 10})
				}
				for _, s := range shapes {
					l = append(l, mk("C24", op+"-pat", "int8", []string{k}, false, "symmetric and skew-symmetric patterns with arbitrary non-zero values, any one cell replaced by an arbitrary value", s[0], s[1]))
				}
			}
			for _, typ := range allNums {
				l = append(l, mk("C24", op, typ, []string{"dense"}, false, "arbitrary contents", 2, 2), mk("C24", op, typ, []string{"csr"}, false, "arbitrary contents", 1, 1))
			}
			for _, k := range vecKinds {
				l = append(l, mk("C24", op, "int8", []string{k}, false, "arbitrary contents", 1, 1), mk("C24", op, "int8", []string{k}, false, "arbitrary contents", 3, 1))
			}
		}
		return l
	}
}

// ---- C21

func C21(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c21[int8](c)
	case "uint64":
		c21[uint64](c)
	case "float64":
		c21[float64](c)
	}
}

var graphs = []func(i, j, n int) bool{
	func(i, j, n int) bool { return i == j+1 },                     // path
	func(i, j, n int) bool { return j == i+1 },                     // path backwards
	func(i, j, n int) bool { return i == (j+1)%n },                 // cycle
	func(i, j, n int) bool { return i == 0 || j == 0 },             // star
	func(i, j, n int) bool { return i != j },                       // complete
	func(i, j, n int) bool { return i == 2*j+1 || i == 2*j+2 },     // tree
	func(i, j, n int) bool { return i == j+1 || i == j || i == 0 }, // path with loops and returns
}

func c21[T Num](c sym.Cfg) {
	n := c.N[0]
	w := zeros[T](n, n)
	edge := make([][]bool, n)
	var pat func(i, j int) bool
	ei, ej := -1, -1
	if c.Op == "pat" {
		k := sym.Choose(len(graphs) + len(patterns))
		if k < len(graphs) {
			pat = func(i, j int) bool { return graphs[k](i, j, n) }
		} else {
			pat = func(i, j int) bool { return patterns[k-len(graphs)](i, j, n, n) }
		}
		ei, ej = []int{0, n / 2, n - 1}[sym.Choose(3)], []int{0, n - 2, n - 1}[sym.Choose(3)]
	}
	if c.Op == "large" {
		pat = func(i, j int) bool { return i == j+1 || i == j+32 || j == i+31 }
		if sym.Choose(2) == 1 {
			pat = func(i, j int) bool { return (i*7+j*5)%41 < 2 }
		}
	}
	for i := range w {
		edge[i] = make([]bool, n)
		for j := range w[i] {
			if c.Op == "large" {
				if pat(i, j) {
					w[i][j] = 1
					if i == n-1 || i == 34 || i == 2 {
						x := sym.Val[T]("weight")
						sym.Assume(sym.And(sym.Finite(x), x > 0))
						w[i][j] = x
					}
				}
			} else if pat != nil && !(i == ei && j == ej) {
				if pat(i, j) {
					x := sym.Val[T]("weight")
					sym.Assume(sym.And(sym.Finite(x), x > 0))
					w[i][j] = x
				}
			} else if c.Typ == "float64" {
				x := sym.Val[T]("weight")
				sym.Assume(sym.And(sym.Finite(x), x >= 0))
				w[i][j] = x
			} else {
				w[i][j] = T(sym.Choose(3))
			}
			edge[i][j] = w[i][j] != 0
			if edge[i][j] {
				edge[i][j] = true
			} else {
				edge[i][j] = false
			}
		}
	}
	a := build(c.Kind[0], w)
	src, stop := 0, n+1
	if c.Op == "large" {
		src, stop = 32*sym.Choose(2), 3
	} else if pat != nil {
		src = []int{0, n / 2, n - 1}[sym.Choose(3)]
		stop = []int{2, n + 1}[sym.Choose(2)]
	} else if n < 4 {
		src = sym.Choose(n)
		stop = 1 + sym.Choose(n+1) // level accepted; n+1: none
	}
	// distances
	dist := make([]int, n)
	for i := range dist {
		dist[i] = -1
	}
	dist[src] = 0
	for d := 1; d <= n; d++ {
		for j := 0; j < n; j++ {
			if dist[j] != d-1 {
				continue
			}
			for i := 0; i < n; i++ {
				if edge[i][j] && dist[i] < 0 {
					dist[i] = d
				}
			}
		}
	}
	level := 0
	var last []T
	got := breadthfirst.Search(bg, a, src, func(v gb.Vector[T]) bool {
		level++
		sym.Assert(v.Length() == n, "length of the level vector")
		last = nil
		for i := 0; i < n; i++ {
			x := v.AtVec(i)
			last = append(last, x)
			sym.Assert(sym.Iff(x > 0, dist[i] == level), "the level vector is positive exactly at the vertices of that distance")
		}
		return level == stop
	})
	if stop <= n {
		sym.Assert(level == stop, "the search stops at the first accepted level")
		sym.Assert(got.Length() == n, "length of the result")
		for i := 0; i < n; i++ {
			sym.Assert(sym.Same(got.AtVec(i), last[i]), "the result is the accepted level's vector")
		}
	} else {
		sym.Assert(level == n, "the search visits as many levels as there are vertices")
		sym.Assert(got.Length() == n, "length of the result")
		for i := 0; i < n; i++ {
			sym.Assert(got.AtVec(i) == 0, "without an accepted level the result is zero")
		}
	}
	holds[T](a, w, "graph after the search")
}

// ---- C22

func C22(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c22[int8](c)
	case "int16":
		c22[int16](c)
	case "int32":
		c22[int32](c)
	case "int64":
		c22[int64](c)
	case "int":
		c22[int](c)
	case "uint8":
		c22[uint8](c)
	case "uint16":
		c22[uint16](c)
	case "uint32":
		c22[uint32](c)
	case "uint64":
		c22[uint64](c)
	case "uint":
		c22[uint](c)
	case "uintptr":
		c22[uintptr](c)
	case "float32":
		c22[float32](c)
	case "float64":
		c22[float64](c)
	}
}

func c22[T Num](c sym.Cfg) {
	sym.NoLeaks()
	r, k, cc := c.N[0], c.N[1], c.N[2]
	var x, y [][]T
	if c.Op == "pat" {
		n := len(patterns)
		p := sym.Choose(4)
		q := []int{0, (p*5 + 4) % n}[sym.Choose(2)]
		x, y = constantWith[T]("a", r, k, p*p, 1+p, 1), constantWith[T]("b", k, cc, q, 2+p, 1)
	} else {
		x, y = grid[T]("a", r, k), grid[T]("b", k, cc)
	}
	a, b := build(c.Kind[0], x), build(c.Kind[1], y)
	var z gb.Matrix[T]
	if c.Op == "default" {
		z = strassen.Multiply(bg, a, b)
	} else {
		z = strassen.MultiplyCrossoverPoint(bg, a, b, c.N[3])
	}
	holds[T](z, product(x, y), "element of the Strassen product")
	observe[T](z)
}

// ---- C23

func C23(c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	var x [][]float64
	if c.Op == "small" {
		x = zeros[float64](R, C)
		for i := range x {
			for j := range x[i] {
				x[i][j] = float64(sym.Choose(2))
			}
		}
	} else if c.Op == "pat" {
		x = constantWith[float64]("a", R, C, sym.Choose(len(patterns)), sym.Choose(3), 1)
	} else {
		x = grid[float64]("a", R, C)
	}
	if c.Op == "formats" {
		z := content[float64](reduced.Reduced(build(c.Kind[0], x)))
		for _, k := range c.Kind[1:] {
			holds[float64](reduced.Reduced(build(k, x)), z, "the reduced form is the same for every format")
		}
		return
	}
	m := build(c.Kind[0], x)
	zm := reduced.Reduced(m)
	sym.Assert(zm.Rows() == R && zm.Columns() == C, "dimensions of the reduced form")
	z := content[float64](zm)
	// leading columns
	var lead []int
	last := -1
	zero := false
	for i := range z {
		p := -1
		for j := range z[i] {
			if z[i][j] != 0 {
				p = j
				break
			}
		}
		if p < 0 {
			zero = true
			continue
		}
		sym.Assert(!zero, "zero rows come last")
		sym.Assert(p > last, "leading columns increase")
		last = p
		lead = append(lead, p)
		sym.Assert(sym.Same(z[i][p], 1), "leading elements are one")
		for l := range z {
			if l != i {
				sym.Assert(sym.Same(z[l][p], 0), "the rest of a leading column is zero")
			}
		}
	}
	// every row of the input is the combination of the reduced rows its leading columns dictate
	for i := range x {
		for j := range x[i] {
			var s float64
			for l, p := range lead {
				s += x[i][p] * z[l][j]
			}
			sym.Assert(sym.Same(s, x[i][j]), "the rows of the input lie in the reduced row space")
		}
	}
	// and the coefficients have full rank
	coef := zeros[float64](R, len(lead))
	for i := range x {
		for l, p := range lead {
			coef[i][l] = x[i][p]
		}
	}
	sym.Assert(fullRank(coef, len(lead)), "the reduced rows lie in the row space of the input")
	holds[float64](m, x, "operand of the reduction")
}

// fullRank says whether some n x n minor of the m x n matrix is not zero.
func fullRank(a [][]float64, n int) bool {
	if n == 0 {
		return true
	}
	any := false
	var pick func(from int, rows []int)
	pick = func(from int, rows []int) {
		if len(rows) == n {
			any = sym.Or(any, det(a, rows, nil) != 0)
			return
		}
		for i := from; i < len(a); i++ {
			pick(i+1, append(append([]int(nil), rows...), i))
		}
	}
	pick(0, nil)
	return any
}

func det(a [][]float64, rows, used []int) float64 {
	if len(rows) == 0 {
		return 1
	}
	var s float64
	sign := 1.0
	for j := range a[0] {
		skip := false
		for _, u := range used {
			skip = skip || u == j
		}
		if skip {
			continue
		}
		s += sign * a[rows[0]][j] * det(a, rows[1:], append(append([]int(nil), used...), j))
		sign = -sign
	}
	return s
}

// ---- C24

func C24(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c24[int8](c)
	case "int16":
		c24[int16](c)
	case "int32":
		c24[int32](c)
	case "int64":
		c24[int64](c)
	case "int":
		c24[int](c)
	case "uint8":
		c24[uint8](c)
	case "uint16":
		c24[uint16](c)
	case "uint32":
		c24[uint32](c)
	case "uint64":
		c24[uint64](c)
	case "uint":
		c24[uint](c)
	case "uintptr":
		c24[uintptr](c)
	case "float32":
		c24[float32](c)
	case "float64":
		c24[float64](c)
	}
}

func c24[T Num](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	op, pat := cut(c.Op, "-pat")
	var x [][]T
	if pat {
		p := sym.Choose(len(patterns))
		x = pattern[T]("a", R, C, p)
		if R == C {
			for i := range x {
				for j := range x[:i] {
					if op == "symmetric" {
						x[i][j] = x[j][i]
					} else {
						x[i][j] = -x[j][i]
					}
				}
				if op != "symmetric" {
					x[i][i] = 0
				}
			}
		}
		n := sym.Choose(R * C)
		x[n/C][n%C] = sym.Val[T]("b")
	} else {
		x = grid[T]("a", R, C)
	}
	m := build(c.Kind[0], x)
	want := R == C
	if R == C {
		for i := range x {
			for j := range x {
				if op == "symmetric" {
					want = sym.And(want, x[i][j] == x[j][i])
				} else {
					want = sym.And(want, x[i][j] == -x[j][i])
				}
			}
		}
	}
	if op == "symmetric" {
		sym.Assert(sym.Iff(symmetric.Symmetric(m), want), "symmetric exactly when m(i,j) = m(j,i)")
	} else {
		sym.Assert(sym.Iff(skewsymmetric.SkewSymmetric(m), want), "skew-symmetric exactly when m(i,j) = -m(j,i)")
	}
	holds[T](m, x, "operand of the test")
}
