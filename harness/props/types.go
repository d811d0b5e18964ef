package props

// Every property at a tiny size for every element type, one combination of storage formats each.

// runeOp says whether an operation is one of the rune matrices'.
func runeOp(op string) bool {
	return op == "string" || op == "compare" || op == "rows" || op == "columns"
}

func init() {
	types := func(prop string, f func(typ string) []Job) {
		more(prop, func(bool) []Job {
			var l []Job
			for _, typ := range allNums {
				if typ != "int8" {
					l = append(l, f(typ)...)
				}
			}
			return l
		})
	}
	float := func(typ string) bool { return typ == "float32" || typ == "float64" }
	types("C04", func(typ string) (l []Job) {
		for _, k := range allKinds {
			r, c := shape(k, 1, 3)
			if isVec(k) {
				r = 3
			}
			if typ != "uint8" && typ != "float64" {
				l = append(l, mk("C04", "", typ, []string{k}, false, "arbitrary contents, then a full map to arbitrary values", r, c, 0))
			}
		}
		return
	})
	types("C05", func(typ string) (l []Job) {
		for _, k := range allKinds {
			r, c := shape(k, 2, 1)
			l = append(l, mk("C05", "", typ, []string{k}, false, "arbitrary contents, extraction or copy, then one arbitrary write (or clear) on either side", r, c))
		}
		return
	})
	types("C06", func(typ string) (l []Job) {
		for _, k := range append(append([]string(nil), allKinds...), "dmatT", "dvT") {
			r, c := 1, 2
			if isVec(k) || k == "dvT" {
				r, c = 2, 1
			}
			l = append(l, mk("C06", "array", typ, []string{k}, false, "arbitrary contents", r, c), mk("C06", "clear", typ, []string{k}, false, "arbitrary contents", r, c))
		}
		for _, k := range []string{"dvec", "dvT"} {
			l = append(l, mk("C06", "resize", typ, []string{k}, false, "length up to the first size, arbitrary contents, two resizes to arbitrary sizes up to the second, one write in between", 2, 3))
		}
		return
	})
	types("C14", func(typ string) (l []Job) {
		for i, op := range destOps {
			a, b, d := opKinds(op)
			k := []string{a[i%len(a)], b[i%len(b)], d[(i+1)%len(d)], "bool"}
			n := []int{1, 1, 2}
			if d[0] == "dvec" {
				n = []int{2, 1, 1}
			}
			if float(typ) {
				n = []int{1, 1, 1}
			}
			l = append(l, mk("C14", op, typ, k, true, "arbitrary operands, destination contents and mask, compared with the unmasked run on the same destination contents", n...))
			_, _, dd := opShape(op, 1, 1, 2)
			m := []string{"csr", "csc", "dense"}[i%3]
			if dd.c == 1 && i%2 == 0 {
				m = vecKinds[i/2%2]
			}
			k = append(append([]string(nil), k[:3]...), m)
			if !float(typ) {
				l = append(l, mk("C14", op, typ, k, false, "arbitrary operands, destination contents and mask, compared with the unmasked run on the same destination contents", 1, 1, 1))
			}
		}
		return
	})
	types("C17", func(typ string) (l []Job) {
		what := "arbitrary operands and destination; context cancelled from its k-th poll on, every k"
		for i, op := range destOps {
			a, b, d := opKinds(op)
			k := []string{a[i%len(a)], b[i%len(b)], d[(i+1)%len(d)], "poll"}
			l = append(l, mk("C17", op, typ, k, true, what, 1, 1, 1))
		}
		for i, op := range []string{"scalar", "reduce", "reduce-vector", "to-csr", "strassen-direct"} {
			k := matKinds[i%3]
			k2 := "-"
			if op == "strassen-direct" {
				k2 = "csr"
			}
			l = append(l, mk("C17", op, typ, []string{k, k2, "-", "poll"}, true, what, 1, 1, 1))
		}
		return
	})
	types("C18", func(typ string) (l []Job) {
		what := "arbitrary contents; then writes to every cell of the result or of an operand"
		for _, k := range allKinds {
			for i, op := range []string{"scalar", "negative", "transpose", "copy", "reduce"} {
				r, c := shape(k, 1, 1+i%2)
				l = append(l, mk("C18", op, typ, []string{k}, true, what, r, 1, c))
			}
		}
		for i, op := range []string{"add", "subtract", "multiply"} {
			l = append(l, mk("C18", op, typ, []string{matKinds[i], matKinds[(i+1)%3]}, true, what, 1, 1, 1))
		}
		return
	})
	types("C19", func(typ string) (l []Job) {
		if typ == "float64" {
			return
		}
		return []Job{
			mk("C19", "", typ, matKinds, false, "arbitrary equal contents, every program of one operation (rows, columns, steps)", 1, 1, 1),
			mk("C19", "", typ, vecKinds, false, "arbitrary equal contents, every program of one operation (length, -, steps)", 2, 1, 1),
		}
	})
	types("C22", func(typ string) (l []Job) {
		for _, k := range [][]string{{"dense", "csr"}, {"csc", "dense"}} {
			j := mk("C22", "", typ, k, true, "arbitrary operands; direct product (rows, inner, columns, crossover)", 1, 2, 1, 1)
			l = append(l, j)
			if !float(typ) {
				j = mk("C22", "pat", typ, k, false, "patterns of stored cells, one arbitrary value among constants in each operand; default schedule (rows, inner, columns, crossover)", 2, 2, 2, 1)
				j.Cfg.Preempt = 0
				l = append(l, j)
			}
		}
		return
	})
}
