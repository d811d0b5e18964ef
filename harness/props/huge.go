package props

import (
	gb "github.com/rossmerr/graphblas"

	"verif/harness/sym"
)

// hugeShapes have some hundred cells: enough for anything that starts with the 64th, 100th, 128th or 256th element.
func hugeShapes(kind string, thorough bool) [][2]int {
	var l [][2]int
	switch {
	case isVec(kind):
		l = [][2]int{{261, 1}}
		if thorough {
			l = append(l, [2]int{523, 1})
		}
	case kind == "csc":
		l = [][2]int{{261, 1}, {18, 17}}
	default:
		l = [][2]int{{1, 261}, {17, 18}}
	}
	if thorough && !isVec(kind) {
		l = append(l, [2]int{1, 261}, [2]int{261, 1}, [2]int{33, 32})
	}
	return l
}

func init() {
	what := "one pattern of stored cells, one arbitrary value among constants"
	huge := func(prop, op string, kinds func() [][]string, n func(r, c int) []int) {
		more(prop, func(thorough bool) []Job {
			var l []Job
			for _, k := range kinds() {
				for _, s := range hugeShapes(k[0], thorough) {
					l = append(l, mk(prop, op, "int8", k, false, what, n(s[0], s[1])...))
				}
			}
			return l
		})
	}
	plain := func(r, c int) []int { return []int{r, c} }
	writes := func(r, c int) []int { return []int{r, c, 1} }
	ones := func() [][]string { return combos(allKinds, 1) }
	pairs := func() [][]string {
		return append([][]string{{"dense", "csr"}, {"csr", "csc"}, {"csc", "dense"}, {"csr", "csr"}, {"csc", "csc"}}, []string{"dvec", "svec"}, []string{"svec", "svec"})
	}
	triples := func() [][]string {
		var l [][]string
		for i, p := range pairs() {
			d := matKinds[i%3]
			if isVec(p[0]) {
				d = vecKinds[i%2]
			}
			l = append(l, append(append([]string(nil), p...), d))
		}
		return l
	}
	for _, prop := range []string{"C01", "C03", "C20"} {
		kinds := ones
		if prop == "C20" {
			kinds = func() [][]string { return [][]string{{"csr"}, {"csc"}} }
		}
		huge(prop, "huge", kinds, writes)
	}
	huge("C04", "pat", ones, func(r, c int) []int { return []int{r, c, 0} })
	huge("C07", "pat", pairs, plain)
	huge("C10", "add-pat", triples, plain)
	huge("C10", "sub-pat", triples, plain)
	huge("C10", "add-method-pat", pairs, plain)
	huge("C10", "sub-method-pat", pairs, plain)
	huge("C11", "scalar-pat", ones, plain)
	huge("C11", "negative-pat", ones, plain)
	huge("C12", "pat", ones, plain)
	huge("C13", "mult-pat", triples, plain)
	huge("C13", "merge-pat", triples, plain)
	huge("C15", "inplace-pat", ones, plain)
	huge("C15", "into-pat", pairs, plain)
}

// huge builds a big container, writes to three of its cells and checks.
func huge[T Num](c sym.Cfg, check func(m gb.Matrix[T], model [][]T, r, cc int, v T, pointer int)) {
	kind, R, C := c.Kind[0], c.N[0], c.N[1]
	model := constantWith[T]("a", R, C, somePattern(R, C), 1, 1)
	m := build(kind, model)
	write := func(r, cc int, v T) int {
		p := -1
		if x, ok := m.(gb.MatrixCompressed[T]); ok && sym.Choose(2) == 1 {
			p, _ = x.SetReturnPointer(r, cc, v)
		} else {
			m.Update(r, cc, func(T) T { return v })
		}
		model[r][cc] = v
		return p
	}
	write(R-1, C/2, 0)
	write(R/3, C-1, 9)
	r, cc := place("r", R), place("c", C)
	v := sym.Val[T]("v")
	sym.Assume(sym.Finite(v))
	check(m, model, r, cc, v, write(r, cc, v))
}
