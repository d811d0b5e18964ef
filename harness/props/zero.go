package props

// Containers without rows or without columns, and products over an empty inner dimension.
func init() {
	none := [][2]int{{0, 0}, {0, 3}, {3, 0}}
	shapes := func(k string) [][2]int {
		if isVec(k) {
			return [][2]int{{0, 1}}
		}
		return none
	}
	single := func(prop, op, what string, extra ...int) func(bool) []Job {
		return func(bool) []Job {
			var l []Job
			for _, k := range allKinds {
				for _, s := range shapes(k) {
					l = append(l, mk(prop, op, "int8", []string{k}, false, what, append([]int{s[0], s[1]}, extra...)...))
				}
			}
			return l
		}
	}
	more("C02", single("C02", "", "no elements, one access at arbitrary machine-integer coordinates"))
	more("C03", single("C03", "", "no elements, full enumeration", 0))
	more("C04", single("C04", "", "no elements, full map", 0))
	more("C05", single("C05", "", "no elements, extraction or copy"))
	more("C11", single("C11", "scalar", "no elements"))
	more("C11", single("C11", "negative", "no elements"))
	more("C12", single("C12", "", "no elements; method, method twice, to CSR, to CSC, and the function into each cleared format"))
	more("C15", single("C15", "inplace", "no elements; in place"))
	more("C16", single("C16", "add", "no elements, arbitrary identity; all interleavings"))
	more("C16", single("C16", "default-scalar", "no elements; all interleavings"))
	more("C06", func(bool) []Job {
		var l []Job
		for _, k := range append(append([]string(nil), allKinds...), "dmatT", "dvT") {
			r, q := 3, 0
			if isVec(k) || k == "dvT" {
				r, q = 0, 1
			}
			l = append(l, mk("C06", "array", "int8", []string{k}, false, "no elements", r, q), mk("C06", "clear", "int8", []string{k}, false, "no elements", r, q))
		}
		return l
	})
	more("C07", func(bool) []Job {
		var l []Job
		for _, k := range combos(matKinds, 2) {
			for _, d := range [][4]int{{0, 3, 0, 3}, {0, 3, 3, 0}, {3, 0, 3, 0}, {0, 3, 0, 2}, {3, 0, 2, 0}, {0, 0, 0, 0}, {0, 0, 0, 1}, {1, 0, 0, 0}} {
				l = append(l, mk("C07", "pair", "int8", k, false, "two containers without elements", d[:]...))
			}
		}
		for _, k := range combos(vecKinds, 2) {
			l = append(l, mk("C07", "pair", "int8", k, false, "two containers, one or both without elements", 0, 1, 0, 1), mk("C07", "pair", "int8", k, false, "two containers, one or both without elements", 0, 1, 2, 1))
		}
		return l
	})
	more("C08", func(bool) []Job {
		var l []Job
		what := "arbitrary operands (r x k times k x c) with an empty dimension, arbitrary non-zero stale destination"
		for _, k := range combos(matKinds, 3) {
			for _, s := range [][3]int{{2, 0, 2}, {0, 2, 2}, {2, 2, 0}, {0, 0, 0}} {
				l = append(l, mk("C08", "func", "int8", k, false, what, s[:]...))
				if k[1] == k[2] {
					l = append(l, mk("C08", "method", "int8", k[:2], false, "arbitrary operands with an empty dimension", s[:]...))
				}
			}
		}
		return l
	})
	more("C09", func(bool) []Job {
		var l []Job
		for _, op := range []string{"mxv", "vxm"} {
			for _, m := range matKinds {
				for _, v := range combos(vecKinds, 2) {
					k := []string{m, v[0], v[1]}
					l = append(l, mk("C09", op, "int8", k, false, "an empty dimension, arbitrary non-zero stale destination", 2, 0), mk("C09", op, "int8", k, false, "an empty dimension", 0, 2))
				}
			}
		}
		return l
	})
	more("C10", func(bool) []Job {
		var l []Job
		for _, op := range []string{"add", "sub"} {
			for _, k := range combos(matKinds, 3) {
				for _, s := range none {
					l = append(l, mk("C10", op, "int8", k, false, "no elements", s[:]...))
					if k[1] == k[2] {
						l = append(l, mk("C10", op+"-method", "int8", k[:2], false, "no elements", s[:]...))
					}
				}
			}
			for _, k := range combos(vecKinds, 2) {
				l = append(l, mk("C10", op+"-method", "int8", k, false, "no elements", 0, 1))
			}
		}
		return l
	})
	more("C13", func(bool) []Job {
		var l []Job
		for _, op := range []string{"mult", "merge"} {
			for _, k := range combos(matKinds, 3) {
				for _, s := range none {
					l = append(l, mk("C13", op, "int8", k, false, "no elements", s[:]...))
				}
			}
			for _, k := range combos(vecKinds, 3) {
				l = append(l, mk("C13", op+"-vec", "int8", k, false, "no elements", 0, 1))
			}
		}
		return l
	})
	more("C14", func(bool) []Job {
		var l []Job
		for i, k := range combos(matKinds, 3) {
			l = append(l, mk("C14", "mxm", "int8", append(append([]string(nil), k...), []string{"bool", "none", "csr"}[i%3]), false, "operands with an empty inner dimension, arbitrary destination contents and mask", 2, 0, 2))
		}
		for _, op := range []string{"mxv", "vxm"} {
			for _, k := range opCombos(op) {
				l = append(l, mk("C14", op, "int8", append(append([]string(nil), k...), "bool"), false, "operands with an empty inner dimension, arbitrary destination contents and mask", 2, 0, 1))
			}
		}
		return l
	})
	more("C16", func(bool) []Job {
		var l []Job
		for _, k := range matKinds {
			for _, s := range none {
				l = append(l, mk("C16", "vector-add", "int8", []string{k}, false, "no elements, arbitrary identity; all interleavings", s[:]...), mk("C16", "default-vector", "int8", []string{k}, false, "no elements; all interleavings", s[:]...))
			}
		}
		return l
	})
	more("C22", func(bool) []Job {
		var l []Job
		for _, k := range combos(matKinds, 2) {
			for _, s := range [][4]int{{0, 0, 0, 0}, {0, 0, 0, 1}, {2, 0, 2, 1}, {0, 2, 2, 0}, {2, 2, 0, 1}, {2, 0, 2, 64}} {
				l = append(l, mk("C22", "", "int8", k, false, "an empty dimension; all interleavings (rows, inner, columns, crossover)", s[:]...))
			}
		}
		return l
	})
	more("C24", func(bool) []Job {
		var l []Job
		for _, op := range []string{"symmetric", "skew"} {
			for _, k := range matKinds {
				for _, s := range none {
					l = append(l, mk("C24", op, "int8", []string{k}, false, "no elements", s[:]...))
				}
			}
		}
		return l
	})
}
