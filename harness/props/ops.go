package props

import (
	"context"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/unaryop"

	"verif/harness/sym"
)

// The functions that write a destination.
var destOps = []string{"mxm", "mxv", "vxm", "emul", "emulv", "eadd", "eaddv", "add", "sub", "apply", "negative", "transpose"}

func unary(op string) bool { return op == "apply" || op == "negative" || op == "transpose" }

// opKinds lists the storage formats of operands and destination of op: first operand, second operand, destination.
func opKinds(op string) (a, b, d []string) {
	switch op {
	case "mxv", "vxm":
		return matKinds, vecKinds, vecKinds
	case "emulv", "eaddv":
		return vecKinds, vecKinds, vecKinds
	case "apply", "negative", "transpose":
		return matKinds, []string{"-"}, matKinds
	}
	return matKinds, matKinds, matKinds
}

// opCombos lists all combinations of storage formats for op.
func opCombos(op string) [][]string {
	a, b, d := opKinds(op)
	var l [][]string
	for _, x := range a {
		for _, y := range b {
			for _, z := range d {
				l = append(l, []string{x, y, z})
			}
		}
	}
	return l
}

type dim struct{ r, c int }

// opShape gives the dimensions of the operands and the destination for sizes r, k, c.
func opShape(op string, r, k, c int) (a, b, d dim) {
	switch op {
	case "mxm":
		return dim{r, k}, dim{k, c}, dim{r, c}
	case "mxv", "vxm":
		return dim{r, k}, dim{k, 1}, dim{r, 1}
	case "emulv", "eaddv":
		return dim{r, 1}, dim{r, 1}, dim{r, 1}
	case "transpose":
		return dim{r, c}, dim{}, dim{c, r}
	case "apply", "negative":
		return dim{r, c}, dim{}, dim{r, c}
	}
	return dim{r, c}, dim{r, c}, dim{r, c}
}

// runOp calls the library function for op.
func runOp[T Num](ctx context.Context, op string, a, b, d gb.Matrix[T], mask gb.Mask, u unaryop.UnaryOp[T]) {
	switch op {
	case "mxm":
		gb.MatrixMatrixMultiply(ctx, a, b, mask, d)
	case "mxv":
		gb.MatrixVectorMultiply(ctx, a, b.(gb.Vector[T]), mask, d.(gb.Vector[T]))
	case "vxm":
		gb.VectorMatrixMultiply(ctx, b.(gb.Vector[T]), a, mask, d.(gb.Vector[T]))
	case "emul":
		gb.ElementWiseMatrixMultiply(ctx, a, b, mask, d)
	case "emulv":
		gb.ElementWiseVectorMultiply(ctx, a.(gb.Vector[T]), b.(gb.Vector[T]), mask, d.(gb.Vector[T]))
	case "eadd":
		gb.ElementWiseMatrixAdd(ctx, a, b, mask, d)
	case "eaddv":
		gb.ElementWiseVectorAdd(ctx, a.(gb.Vector[T]), b.(gb.Vector[T]), mask, d.(gb.Vector[T]))
	case "add":
		gb.Add(ctx, a, b, mask, d)
	case "sub":
		gb.Subtract(ctx, a, b, mask, d)
	case "apply":
		gb.Apply(ctx, a, mask, u, d)
	case "negative":
		gb.Negative(ctx, a, mask, d)
	case "transpose":
		gb.Transpose[T](ctx, a, mask, d)
	default:
		panic("op " + op)
	}
}

// table is an arbitrary function given by its results on the listed arguments; every other argument has one
// arbitrary result.
type table[T Num] struct {
	in, out []T
	other   T
}

func newTable[T Num](in []T) *table[T] {
	t := &table[T]{in: in, other: sym.Val[T]("f other")}
	for range in {
		x := sym.Val[T]("f")
		sym.Assume(sym.Finite(x))
		t.out = append(t.out, x)
	}
	sym.Assume(sym.Finite(t.other))
	return t
}

func (t *table[T]) at(x T) T {
	v := t.other
	for i := len(t.in) - 1; i >= 0; i-- {
		v = sym.Ite(x == t.in[i], t.out[i], v)
	}
	return v
}

func (t *table[T]) op() unaryop.UnaryOp[T] { return unaryop.NewUnaryOp(t.at) }

// spread makes the container for b, nil for unary operations.
func second[T Num](op, kind string, d dim) (gb.Matrix[T], [][]T) {
	if unary(op) {
		return nil, nil
	}
	y := grid[T]("b", d.r, d.c)
	return build(kind, y), y
}

func flatten[T any](g [][]T) []T {
	var l []T
	for _, r := range g {
		l = append(l, r...)
	}
	return l
}
