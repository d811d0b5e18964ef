package props

import (
	gb "github.com/rossmerr/graphblas"

	"verif/harness/sym"
)

func init() {
	Registry["C32"] = C32
	jobsOf["C32"] = func(thorough bool) []Job {
		var l []Job
		what := "arbitrary operands; no mask, an arbitrary mask, or the destination as mask"
		pat := "patterns of stored cells and of the mask, constants with one arbitrary value and two arbitrary mask cells"
		add := func(op, alias string, k []string, n []int) {
			k = append(append([]string(nil), k...), alias)
			l = append(l, mk("C32", op, "int8", k, false, what, n...))
		}
		for _, op := range destOps {
			as, bs, _ := opKinds(op)
			vec := op == "emulv" || op == "eaddv"
			for _, ka := range as {
				for _, kb := range bs {
					k := []string{ka, kb}
					pats := func(alias string, n ...int) {
						l = append(l, mk("C32", op+"-pat", "int8", append([]string{ka, kb}, alias), false, pat, n...))
					}
					switch {
					case op == "mxm":
						add(op, "first", k, []int{1, 2, 2})
						add(op, "second", k, []int{2, 2, 1})
						pats("first", 2, 3, 3)
						pats("second", 3, 3, 2)
						if thorough {
							add(op, "first", k, []int{2, 1, 1})
							add(op, "second", k, []int{1, 1, 2})
							add(op, "first", k, []int{2, 2, 2})
							add(op, "second", k, []int{2, 2, 2})
							pats("first", 4, 3, 3)
							pats("second", 4, 4, 5)
						}
						if ka == kb {
							if ka == "dense" || thorough {
								add(op, "both", k, []int{2, 2, 2})
							}
							add(op, "both", k, []int{1, 1, 1})
							pats("both", 3, 3, 3)
						}
					case op == "mxv" || op == "vxm":
						if ka == "dense" || kb == "dvec" || thorough {
							add(op, "second", k, []int{2, 2, 1})
						}
						pats("second", 3, 3, 1)
						if thorough {
							pats("second", 6, 6, 1)
						}
					case unary(op):
						r, c := 1, 3
						if op == "transpose" {
							r, c = 2, 2
						}
						add(op, "first", k, []int{r, 1, c})
						if op != "transpose" {
							add(op, "first", k, []int{2, 1, 2})
						}
						pats("first", 4, 1, 4)
						if thorough {
							pats("first", 6, 1, 6)
						}
					default:
						shapes := [][]int{{1, 1, 2}, {2, 1, 1}}
						big := []int{3, 1, 4}
						if vec {
							shapes, big = [][]int{{2, 1, 1}}, []int{7, 1, 1}
						}
						aliases := []string{"first", "second"}
						if ka == kb {
							aliases = append(aliases, "both")
						}
						for _, al := range aliases {
							for _, s := range shapes {
								add(op, al, k, s)
							}
							if al == "both" && !vec {
								add(op, al, k, []int{2, 1, 2})
							}
							if thorough {
								if vec {
									add(op, al, k, []int{3, 1, 1})
								} else {
									add(op, al, k, []int{2, 1, 2})
								}
							}
							pats(al, big...)
						}
					}
				}
			}
		}
		for _, typ := range append([]string{"uint8", "float64"}, allNums...) {
			for _, op := range destOps {
				al, n := "first", []int{1, 1, 2}
				switch op {
				case "mxm":
					al, n = "second", []int{1, 1, 2}
				case "mxv", "vxm":
					al, n = "second", []int{1, 1, 1}
				case "emulv", "eaddv":
					n = []int{2, 1, 1}
				case "transpose":
					n = []int{2, 1, 2}
				}
				as, bs, _ := opKinds(op)
				j := mk("C32", op, typ, []string{as[len(as)-1], bs[len(bs)-1], al}, true, what, n...)
				l = append(l, j)
			}
		}
		return l
	}
}

func C32(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c32[int8](c)
	case "int16":
		c32[int16](c)
	case "int32":
		c32[int32](c)
	case "int64":
		c32[int64](c)
	case "int":
		c32[int](c)
	case "uint8":
		c32[uint8](c)
	case "uint16":
		c32[uint16](c)
	case "uint32":
		c32[uint32](c)
	case "uint64":
		c32[uint64](c)
	case "uint":
		c32[uint](c)
	case "uintptr":
		c32[uintptr](c)
	case "float32":
		c32[float32](c)
	case "float64":
		c32[float64](c)
	}
}

// c32 stores the result of an operation in one of its operands.
func c32[T Num](c sym.Cfg) {
	op, pat := cut(c.Op, "-pat")
	alias := c.Kind[2]
	da, db, dd := opShape(op, c.N[0], c.N[1], c.N[2])
	var x, y [][]T
	p, n := 0, len(patterns)
	if pat {
		p = sym.Choose(n)
		x = constantWith[T]("a", da.r, da.c, p, 1+p, 1)
		if !unary(op) {
			y = constant[T](db.r, db.c, (p*5+4)%n, 2)
		}
	} else {
		x = grid[T]("a", da.r, da.c)
		if !unary(op) && alias != "both" {
			y = grid[T]("b", db.r, db.c)
		}
	}
	a := build(c.Kind[0], x)
	d, prev := a, x
	var b gb.Matrix[T]
	switch {
	case unary(op):
	case alias == "both":
		b, y = a, x
	default:
		b = build(c.Kind[1], y)
		if alias == "second" {
			d, prev = b, y
		}
	}
	t := newTable([]T{3, 5})
	if !pat {
		t = newTable(flatten(x))
	}
	want := zeros[T](dd.r, dd.c)
	for i := range want {
		for j := range want[i] {
			var w T
			switch op {
			case "mxm", "mxv", "vxm":
				for k := range y {
					w += x[i][k] * y[k][j]
				}
			case "emul", "emulv":
				w = x[i][j] * y[i][j]
			case "eadd", "eaddv":
				w = sym.Ite(y[i][j] != 0, y[i][j], x[i][j])
			case "add":
				w = x[i][j] + y[i][j]
			case "sub":
				w = x[i][j] - y[i][j]
			case "negative":
				w = -x[i][j]
			case "transpose":
				w = x[j][i]
			case "apply":
				w = t.at(x[i][j])
				if sparse(c.Kind[0]) {
					w = sym.Ite(x[i][j] == 0, 0, w)
				}
			}
			want[i][j] = w
		}
	}
	var mask gb.Mask
	prot := make([][]bool, dd.r)
	for i := range prot {
		prot[i] = make([]bool, dd.c)
	}
	switch sym.Choose(3) {
	case 1:
		if pat {
			mask, prot = patternMask[T]("bool", dd, (p*7+2)%n)
		} else {
			mask, prot = makeMask[T]("bool", dd)
		}
	case 2:
		mask, prot = d, positives(prev)
	}
	runOp[T](bg, op, a, b, d, mask, t.op())
	sym.Assert(d.Rows() == dd.r && d.Columns() == dd.c, "dimensions")
	for i := range want {
		for j := range want[i] {
			got := d.At(i, j)
			sym.Assert(sym.Implies(prot[i][j], sym.Same(got, prev[i][j])), "a masked cell keeps its value")
			sym.Assert(sym.Implies(!prot[i][j], sym.Same(got, want[i][j])), "the operand that is the destination holds the result")
		}
	}
	if alias == "first" && b != nil {
		holds[T](b, y, "the other operand is kept")
	}
	if alias == "second" {
		holds[T](a, x, "the other operand is kept")
	}
	observe[T](d)
}
