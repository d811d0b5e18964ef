package props

import (
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/unaryop"

	"verif/harness/sym"
)

func init() {
	Registry["C31"] = C31
	jobsOf["C31"] = func(thorough bool) []Job {
		var l []Job
		n := 3
		if thorough {
			n = 4
		}
		what := "every combination of operand dimensions from 0 to the size, some elements arbitrary"
		for _, op := range []string{"mxm", "mxv", "vxm", "emul", "emulv", "eadd", "eaddv", "add", "sub"} {
			for i, k := range opCombos(op) {
				l = append(l, mk("C31", op, "int8", k, false, what, n))
				if thorough || i%5 == 0 {
					l = append(l, mk("C31", op+"-far", "int8", k, false, "every combination of operand dimensions 1, 2 and 8, some elements arbitrary", n))
				}
			}
		}
		for _, op := range []string{"Add", "Subtract", "Multiply", "strassen0", "strassen1", "strassen2"} {
			ks := combos(matKinds, 2)
			if op[0] != 's' {
				ks = append(ks, combos(vecKinds, 2)...)
			}
			for _, k := range ks {
				size := n
				if op == "strassen1" || op == "strassen0" {
					size = 3 // the recursion on larger operands is C22's
				}
				j := mk("C31", op, "int8", []string{k[0], k[1], ""}, false, what, size)
				if op[0] == 's' {
					j.Cfg.Preempt = 0
				}
				l = append(l, j)
				if op == "strassen0" || op == "strassen1" {
					continue
				}
				j = mk("C31", op+"-far", "int8", []string{k[0], k[1], ""}, false, "every combination of operand dimensions 1, 2 and 8, some elements arbitrary", 3)
				if op[0] == 's' {
					j.Cfg.Preempt = 0
				}
				if k[0] == k[1] || thorough || op[0] != 's' {
					l = append(l, j)
				}
			}
		}
		return l
	}
}

func C31(c sym.Cfg) { c31[int8](c) }

func c31[T Num](c sym.Cfg) {
	n := c.N[0]
	op, far := cut(c.Op, "-far")
	size := func() int {
		if far {
			return []int{1, 2, 8}[sym.Choose(3)]
		}
		return sym.Choose(n + 1)
	}
	draw := func(kind string) dim {
		r, q := shape(kind, size(), 1)
		if !isVec(kind) {
			q = size()
		}
		return dim{r, q}
	}
	part := func(d dim, from int) [][]T {
		g := fixed[T](d.r, d.c, T(from))
		if d.r > 0 && d.c > 0 {
			g[d.r-1][0] = sym.Val[T]("x")
		}
		return g
	}
	ad, bd := draw(c.Kind[0]), draw(c.Kind[1])
	x, y := part(ad, 1), part(bd, 0)
	a, b := build(c.Kind[0], x), build(c.Kind[1], y)
	fits, dd := false, ad
	switch op {
	case "mxm", "mxv", "Multiply", "strassen0", "strassen1", "strassen2":
		fits, dd = ad.c == bd.r, dim{ad.r, bd.c}
	case "vxm":
		fits, dd = ad.c == bd.r, dim{ad.r, 1}
	default:
		fits = ad == bd
	}
	var failed bool
	switch op {
	case "Add":
		failed = try(func() { a.Add(b) })
	case "Subtract":
		failed = try(func() { a.Subtract(b) })
	case "Multiply":
		failed = try(func() { a.Multiply(b) })
	case "strassen0", "strassen1", "strassen2":
		failed = try(func() {
			z := strassen.MultiplyCrossoverPoint(bg, a, b, int(op[8]-'0'))
			sym.Assert(z.Rows() == dd.r && z.Columns() == dd.c, "dimensions of the Strassen product")
		})
	default:
		w := part(dd, 2)
		d := build(c.Kind[2], w)
		failed = try(func() {
			runOp(bg, op, a, b, d, nil, unaryop.NewUnaryOp(func(v T) T { return v }))
		})
		if !fits {
			holds[T](d, w, "destination of a rejected operation")
		} else {
			sym.Assert(d.Rows() == dd.r && d.Columns() == dd.c, "dimensions of the destination")
		}
	}
	sym.Assert(failed == !fits, "an operation panics exactly when the dimensions are incompatible")
	holds[T](a, x, "first operand")
	holds[T](b, y, "second operand")
}
