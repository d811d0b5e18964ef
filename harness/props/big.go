package props

import (
	"verif/harness/sym"
)

// Larger shapes: which cells are stored is one of these patterns; the stored values are arbitrary non-zero values
// (or distinct constants where the arithmetic on them would be too much for the solver).
var patterns = []func(i, j, R, C int) bool{
	func(i, j, R, C int) bool { return true },
	func(i, j, R, C int) bool { return false },
	func(i, j, R, C int) bool { return i == j },
	func(i, j, R, C int) bool { return i%3 == 0 && j%3 != 1 }, // runs of empty rows and columns
	func(i, j, R, C int) bool { return (i*7+j*5)%4 == 1 },
	func(i, j, R, C int) bool { return i == R-1 || j == C-1 },
	func(i, j, R, C int) bool { return i == R-1 && j == C-1 },
	func(i, j, R, C int) bool { return i > 0 || j > 0 },
	func(i, j, R, C int) bool { return (i+j)%2 == 0 },
	func(i, j, R, C int) bool { return i+j == C-1 },
	func(i, j, R, C int) bool { return i == 0 },
	func(i, j, R, C int) bool { return j == 0 },
	func(i, j, R, C int) bool { return i >= j },
	func(i, j, R, C int) bool { return i < j },
	func(i, j, R, C int) bool { return i == R/2 || j == C/2 },
	func(i, j, R, C int) bool { return i > 0 && i < R-1 },
}

// somePattern picks a pattern; for long shapes one of three.
func somePattern(R, C int) int {
	if R*C >= 200 {
		return 8
	}
	if R >= 32 || C >= 32 {
		return []int{0, 3, 8}[sym.Choose(3)]
	}
	return sym.Choose(len(patterns))
}

// nonzero is an arbitrary finite non-zero value.
func nonzero[T Num](name string) T {
	x := sym.Val[T](name)
	sym.Assume(sym.And(sym.Finite(x), x != 0))
	return x
}

// pattern is a grid with arbitrary non-zero values in the cells of pattern p and zeros elsewhere.
func pattern[T Num](name string, R, C, p int) [][]T {
	g := zeros[T](R, C)
	for i := range g {
		for j := range g[i] {
			if patterns[p](i, j, R, C) {
				g[i][j] = nonzero[T](name)
			}
		}
	}
	return g
}

// constant is a grid with distinct small non-zero constants in the cells of pattern p.
func constant[T Num](R, C, p, seed int) [][]T {
	g := zeros[T](R, C)
	for i := range g {
		for j := range g[i] {
			if patterns[p](i, j, R, C) {
				g[i][j] = T((i*C+j*3+seed)%7 + 1)
			}
		}
	}
	return g
}

// constantWith is constant with w cells replaced by arbitrary values.
func constantWith[T Num](name string, R, C, p, seed, w int) [][]T {
	g := constant[T](R, C, p, seed)
	for k := 0; k < w; k++ {
		n := (seed*5 + k*k*3 + k*(R*C/(w+1)) + R*C - 1) % (R * C)
		x := sym.Val[T](name)
		sym.Assume(sym.Finite(x))
		g[n/C][n%C] = x
	}
	return g
}

// bigShapes are the larger shapes of a storage format.
func bigShapes(kind string, thorough bool) [][2]int {
	if isVec(kind) || kind == "dvT" || kind == "dv" {
		if thorough {
			return [][2]int{{21, 1}, {43, 1}, {71, 1}, {141, 1}}
		}
		return [][2]int{{21, 1}, {43, 1}}
	}
	if thorough {
		return [][2]int{{5, 5}, {6, 6}, {2, 9}, {9, 2}, {1, 12}, {12, 1}, {8, 8}, {4, 17}, {17, 4}, {1, 71}, {71, 1}, {2, 41}}
	}
	l := [][2]int{{5, 5}, {2, 9}, {9, 2}}
	if kind == "csc" {
		return append(l, [2]int{41, 1})
	}
	return append(l, [2]int{1, 41})
}
