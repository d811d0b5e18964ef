package props

import (
	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/sort"

	"verif/harness/sym"
)

func init() {
	Registry["C25"] = C25
	Registry["C26"] = C26
	jobsOf["C25"] = func(thorough bool) []Job {
		var l []Job
		for _, op := range []string{"rows", "columns"} {
			for _, s := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}} {
				l = append(l, mk("C25", op, "rune", []string{"dense"}, false, "arbitrary code points", s[0], s[1]))
			}
			shapes := [][2]int{{3, 1}, {1, 3}, {3, 2}, {2, 3}}
			if thorough {
				shapes = append(shapes, [2]int{3, 3}, [2]int{4, 1}, [2]int{1, 4}, [2]int{4, 2}, [2]int{2, 4})
			}
			many := [][2]int{{2, 12}, {12, 2}, {1, 14}, {14, 1}, {4, 8}, {8, 4}}
			if thorough {
				many = append(many, [2]int{3, 20}, [2]int{20, 3}, [2]int{1, 30}, [2]int{30, 1}, [2]int{9, 9})
			}
			for _, s := range many {
				l = append(l, mk("C25", op+"-many", "rune", []string{"dense"}, false, "reversed, rotated, sorted, repeated and mixed constants with one arbitrary code point at any of five places", s[0], s[1]))
			}
			few := [][2]int{{1, 6}, {2, 5}, {6, 1}, {5, 2}}
			if thorough {
				few = append(few, [2]int{1, 8}, [2]int{8, 1}, [2]int{3, 6}, [2]int{6, 3})
			}
			for _, s := range few {
				l = append(l, mk("C25", op+"-binary", "rune", []string{"dense"}, false, "arbitrary matrices over two characters", s[0], s[1]))
			}
			for _, s := range shapes {
				l = append(l, mk("C25", op+"-ascii", "rune", []string{"dense"}, false, "arbitrary ASCII characters", s[0], s[1]))
			}
		}
		return l
	}
	jobsOf["C26"] = func(thorough bool) []Job {
		var l []Job
		for _, s := range [][2]int{{1, 1}, {1, 2}, {2, 1}} {
			l = append(l, mk("C26", "", "rune", []string{"dense"}, false, "arbitrary code points", s[0], s[1]))
		}
		l = append(l, mk("C26", "", "rune", []string{"dvec"}, false, "arbitrary code points", 1, 1), mk("C26", "", "rune", []string{"dvec"}, false, "arbitrary code points", 2, 1))
		l = append(l, mk("C26", "ascii", "rune", []string{"dense"}, false, "arbitrary ASCII characters", 2, 2),
			mk("C26", "ascii", "rune", []string{"dense"}, false, "arbitrary ASCII characters", 1, 4),
			mk("C26", "ascii", "rune", []string{"dense"}, false, "arbitrary ASCII characters", 2, 3),
			mk("C26", "ascii", "rune", []string{"dvec"}, false, "arbitrary ASCII characters", 4, 1),
			mk("C26", "many", "rune", []string{"dense"}, false, "constants, at most one arbitrary code point in each operand at any of five places", 4, 5),
			mk("C26", "many", "rune", []string{"dense"}, false, "constants, at most one arbitrary code point in each operand at any of five places", 1, 20),
			mk("C26", "many", "rune", []string{"dense"}, false, "constants, at most one arbitrary code point in each operand at any of five places", 20, 1),
			mk("C26", "many", "rune", []string{"dvec"}, false, "constants, at most one arbitrary code point in each operand at any of five places", 20, 1),
			mk("C26", "laws", "rune", []string{"dense"}, false, "arbitrary ASCII characters", 2, 2),
			mk("C26", "laws", "rune", []string{"dvec"}, false, "arbitrary ASCII characters", 3, 1))
		if thorough {
			l = append(l, mk("C26", "", "rune", []string{"dense"}, false, "arbitrary code points", 2, 2),
				mk("C26", "ascii", "rune", []string{"dense"}, false, "arbitrary ASCII characters", 3, 3),
				mk("C26", "ascii", "rune", []string{"dvec"}, false, "arbitrary ASCII characters", 8, 1),
				mk("C26", "laws", "rune", []string{"dense"}, false, "arbitrary ASCII characters", 3, 2))
		}
		return l
	}
}

// letters is an arbitrary grid of code points.
func letters(name string, r, c int, ascii bool) [][]rune {
	g := zeros[rune](r, c)
	for i := range g {
		for j := range g[i] {
			x := sym.Val[rune](name)
			if ascii {
				sym.Assume(sym.And(x >= 0, x < 0x80))
			} else {
				sym.Assume(sym.And(x >= 0, x <= 0x10ffff, sym.Or(x < 0xd800, x > 0xdfff)))
			}
			g[i][j] = x
		}
	}
	return g
}

func text(kind string, g [][]rune) gb.MatrixLogical[rune] {
	if kind == "dvec" {
		v := gb.NewDenseVector[rune](len(g))
		for i := range g {
			v.SetVec(i, g[i][0])
		}
		return v
	}
	m := gb.NewDenseMatrix[rune](len(g), width(g))
	for i := range g {
		for j := range g[i] {
			m.Set(i, j, g[i][j])
		}
	}
	return m
}

func lexLess(a, b []rune) bool {
	less, eq := false, true
	for i := range a {
		less = sym.Or(less, sym.And(eq, a[i] < b[i]))
		eq = sym.And(eq, a[i] == b[i])
	}
	return less
}

func lexEq(a, b []rune) bool {
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	return eq
}

func transposed[T any](g [][]T) [][]T {
	t := zeros[T](width(g), len(g))
	for i := range g {
		for j := range g[i] {
			t[j][i] = g[i][j]
		}
	}
	return t
}

// manyLetters fills a large matrix with one of several arrangements of constants and one arbitrary code point.
func manyLetters(R, C int, columns bool) [][]rune {
	x := zeros[rune](R, C)
	how := sym.Choose(6)
	for i := range x {
		for j := range x[i] {
			k, l, n := i, j, R // k-th item of n, l-th letter of it
			if columns {
				k, l, n = j, i, C
			}
			switch how {
			case 0: // reversed, decided by the last letter
				x[i][j] = 'm'
				if columns && l == R-1 || !columns && l == C-1 {
					x[i][j] = rune('a' + n - k)
				}
			case 1: // reversed, decided by the first letter
				x[i][j] = rune('a' + (n - k) + l)
			case 2: // rotated
				x[i][j] = rune('a' + (k+n/2)%n)
			case 3: // sorted
				x[i][j] = rune('a' + k)
			case 4: // repetitions
				x[i][j] = rune('a' + (k*5+l)%3)
			case 5: // mixed, with characters of several bytes
				x[i][j] = []rune{'z', 'é', 'a', '世', 'b', 0x1F600, 0}[(k*3+l*2)%7]
			}
		}
	}
	p := [][2]int{{0, 0}, {R - 1, C - 1}, {R / 2, C / 2}, {0, C - 1}, {R - 1, 0}}[sym.Choose(5)]
	v := sym.Val[rune]("a")
	sym.Assume(sym.And(v >= 0, v <= 0x10ffff, sym.Or(v < 0xd800, v > 0xdfff)))
	x[p[0]][p[1]] = v
	return x
}

func C25(c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	var x [][]rune
	op, many := cut(c.Op, "-many")
	if op, binary := cut(op, "-binary"); many {
		x = manyLetters(R, C, op == "columns")
	} else if binary {
		x = zeros[rune](R, C)
		for i := range x {
			for j := range x[i] {
				x[i][j] = sym.Ite(sym.Bool("a"), 'a', 'b')
			}
		}
	} else {
		_, ascii := cut(c.Op, "-ascii")
		x = letters("a", R, C, ascii)
	}
	m := text("dense", x)
	var z gb.MatrixRune
	rows := c.Op[0] == 'r'
	if rows {
		z = sort.BubbleRow(bg, m)
	} else {
		z = sort.BubbleColumns(bg, m)
	}
	sym.Assert(z.Rows() == R && z.Columns() == C, "dimensions of the sorted matrix")
	holds[rune](m, x, "operand of the sort")
	y := zeros[rune](R, C)
	for i := range y {
		for j := range y[i] {
			y[i][j] = z.At(i, j)
		}
	}
	if !rows {
		x, y = transposed(x), transposed(y)
	}
	for i := 0; i+1 < len(y); i++ {
		sym.Assert(sym.Not(lexLess(y[i+1], y[i])), "sorted in non-decreasing lexicographic order")
	}
	for i := range x {
		before, after := 0, 0
		for k := range x {
			before += sym.Ite(lexEq(x[i], x[k]), 1, 0)
			after += sym.Ite(lexEq(x[i], y[k]), 1, 0)
		}
		sym.Assert(before == after, "every row or column occurs as often as before")
	}
}

func C26(c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	ascii := c.Op != ""
	var x, y [][]rune
	if c.Op == "many" {
		x = manyLetters(R, C, false)
		y = clone(x)
		if sym.Choose(2) == 0 {
			p := [][2]int{{0, 0}, {R - 1, C - 1}, {R / 2, C / 2}, {0, C - 1}, {R - 1, 0}}[sym.Choose(5)]
			y[p[0]][p[1]] = letters("b", 1, 1, false)[0][0]
		}
	} else {
		x, y = letters("a", R, C, ascii), letters("b", R, C, ascii)
	}
	a, b := text(c.Kind[0], x), text(c.Kind[0], y)
	if c.Op == "laws" {
		ab, ba := gb.Compare(bg, a, b), gb.Compare(bg, b, a)
		sym.Assert(ab == -ba, "antisymmetric")
		z := letters("c", R, C, ascii)
		d := text(c.Kind[0], z)
		if ab <= 0 {
			if gb.Compare(bg, b, d) <= 0 {
				sym.Assert(gb.Compare(bg, a, d) <= 0, "transitive")
			}
		}
		return
	}
	fx, fy := flatten(x), flatten(y)
	less, eq := lexLess(fx, fy), lexEq(fx, fy)
	cmp := gb.Compare(bg, a, b)
	sym.Assert(cmp == sym.Ite(eq, 0, sym.Ite(less, -1, 1)), "comparison is lexicographic")
	sym.Assert(sym.Iff(gb.Less(bg, a, b), less), "less is lexicographic")
	sym.Assert(sym.Iff(gb.Greater(bg, a, b), sym.Not(sym.Or(less, eq))), "greater is lexicographic")
	sym.Assert(gb.String(bg, a) == string(fx), "the string form is the row-major sequence")
	holds[rune](a, x, "operand of the comparison")
	holds[rune](b, y, "operand of the comparison")
}
