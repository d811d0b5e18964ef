package props

import (
	"context"
	"reflect"
	"time"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/constraints"
	"github.com/rossmerr/graphblas/operators"
	"github.com/rossmerr/graphblas/unaryop"

	"verif/harness/sym"
)

func init() {
	Registry["C27"] = C27
	Registry["C29"] = C29
	Registry["C30"] = C30
	jobsOf["C27"] = func(thorough bool) []Job {
		var l []Job
		for _, t := range allNums {
			l = append(l, mk("C27", "", t, nil, false, "arbitrary arguments (integer divisors are not zero)"))
		}
		l = append(l, mk("C27", "logical", "bool", nil, false, "arbitrary arguments"))
		return l
	}
	jobsOf["C29"] = func(thorough bool) []Job {
		var l []Job
		for _, t := range append(append([]string(nil), allNums...), "rune", "bool") {
			l = append(l, mk("C29", "", t, nil, false, "every storage format, an arbitrary element, every order of registering two further types"))
		}
		return l
	}
	jobsOf["C30"] = func(thorough bool) []Job {
		return []Job{mk("C30", "", "int", nil, false, "arbitrary modes, parents and keys")}
	}
}

// byType runs f for the element type.
func byType(typ string, fs map[string]func(sym.Cfg), c sym.Cfg) {
	f := fs[typ]
	if f == nil {
		panic("type " + typ)
	}
	f(c)
}

func C27(c sym.Cfg) {
	if c.Op == "logical" {
		a, b := sym.Bool("a"), sym.Bool("b")
		sym.Assert(sym.Iff(operators.LOR.Apply(a, b), sym.Or(a, b)), "logical or")
		sym.Assert(sym.Iff(operators.LAND.Apply(a, b), sym.And(a, b)), "logical and")
		sym.Assert(sym.Iff(operators.LXOR.Apply(a, b), sym.Or(sym.And(a, sym.Not(b)), sym.And(b, sym.Not(a)))), "logical xor")
		sym.Assert(sym.Iff(operators.LogicalInverse.Apply(a), sym.Not(a)), "logical inverse")
		u := sym.Bool("unit")
		sym.Assert(sym.Iff(binaryop.NewMonoID(u, operators.LOR).Zero(), u), "identity of a monoid")
		sym.Assert(sym.Iff(gb.Zero[bool](), false), "zero of bool")
		sym.Assert(sym.Iff(gb.IsZero(a), sym.Not(a)), "zero test of bool")
		return
	}
	byType(c.Typ, map[string]func(sym.Cfg){
		"int8": c27[int8], "int16": c27[int16], "int32": c27[int32], "int64": c27[int64], "int": c27[int],
		"uint8": c27[uint8], "uint16": c27[uint16], "uint32": c27[uint32], "uint64": c27[uint64], "uint": c27[uint], "uintptr": c27[uintptr],
		"float32": c27[float32], "float64": c27[float64],
	}, c)
}

func c27[T Num](c sym.Cfg) {
	a, b, u := sym.Val[T]("a"), sym.Val[T]("b"), sym.Val[T]("unit")
	type pair struct {
		name string
		ops  []binaryop.BinaryOp[T]
		want T
	}
	l := []pair{
		{"addition", []binaryop.BinaryOp[T]{binaryop.Addition[T](), operators.Addition[T]()}, a + b},
		{"subtraction", []binaryop.BinaryOp[T]{binaryop.Subtraction[T](), operators.Subtraction[T]()}, a - b},
		{"multiplication", []binaryop.BinaryOp[T]{binaryop.Multiplication[T](), operators.Multiplication[T]()}, a * b},
		{"minimum", []binaryop.BinaryOp[T]{binaryop.Minimum[T](), operators.Minimum[T]()}, sym.Ite(a < b, a, b)},
		{"maximum", []binaryop.BinaryOp[T]{binaryop.Maximum[T](), operators.Maximum[T]()}, sym.Ite(a > b, a, b)},
		{"first", []binaryop.BinaryOp[T]{binaryop.FirstArgument[T](), operators.FirstArgument[T]()}, a},
		{"second", []binaryop.BinaryOp[T]{binaryop.SecondArgument[T](), operators.SecondArgument[T]()}, b},
	}
	for _, p := range l {
		for _, o := range p.ops {
			sym.Assert(sym.Same(o.Apply(a, b), p.want), p.name)
			sym.Assert(sym.Same(o.Apply(a, b), p.want), p.name+" again")
			m := binaryop.NewMonoID(u, o)
			sym.Assert(sym.Same(m.Zero(), u), "identity of a monoid")
		}
	}
	type test struct {
		name string
		op   binaryop.BinaryOpToBool[T]
		want bool
	}
	for _, p := range []test{
		{"equal", operators.Equal[T](), a == b},
		{"not equal", operators.NotEqual[T](), a != b},
		{"greater", operators.GreaterThan[T](), a > b},
		{"less", operators.LessThan[T](), a < b},
		{"greater or equal", operators.GreaterThanOrEqual[T](), a >= b},
		{"less or equal", operators.LessThanOrEqual[T](), a <= b},
	} {
		sym.Assert(sym.Iff(p.op.Apply(a, b), p.want), p.name)
	}
	// operators made from arbitrary functions
	r, q := sym.Val[T]("result"), sym.Bool("truth")
	f := binaryop.NewBinaryOp(func(x, y T) T {
		sym.Assert(sym.And(sym.Same(x, a), sym.Same(y, b)), "arguments of a custom operator")
		return r
	})
	sym.Assert(sym.Same(f.Apply(a, b), r), "custom operator")
	g := binaryop.NewBinaryOpToBool(func(x, y T) bool {
		sym.Assert(sym.And(sym.Same(x, a), sym.Same(y, b)), "arguments of a custom comparison")
		return q
	})
	sym.Assert(sym.Iff(g.Apply(a, b), q), "custom comparison")
	h := unaryop.NewUnaryOp(func(x T) T {
		sym.Assert(sym.Same(x, a), "argument of a custom unary operator")
		return r
	})
	sym.Assert(sym.Same(h.Apply(a), r), "custom unary operator")
	// defaults
	sym.Assert(gb.Zero[T]() == 0, "zero")
	sym.Assert(gb.Default[T]() == 0, "default")
	sym.Assert(sym.Iff(gb.IsZero(a), a == 0), "zero test")
	sym.Assert(gb.DefaultMonoIDAddition[T]().Zero() == 0, "identity of the default addition")
	sym.Assert(gb.DefaultMonoIDMaximum[T]().Zero() == 0, "identity of the default maximum")
	// division, last because it assumes
	if isInt[T]() {
		sym.Assume(b != 0)
	}
	for _, o := range []binaryop.BinaryOp[T]{binaryop.Division[T](), operators.Division[T]()} {
		sym.Assert(sym.Same(o.Apply(a, b), a/b), "division")
	}
}

func isInt[T Num]() bool {
	one, two := T(1), T(2)
	return one/two == 0
}

// ---- C29

func C29(c sym.Cfg) {
	switch c.Typ {
	case "rune":
		c29type[rune]()
		return
	case "bool":
		c29type[bool]()
		return
	}
	byType(c.Typ, map[string]func(sym.Cfg){
		"int8": c29[int8], "int16": c29[int16], "int32": c29[int32], "int64": c29[int64], "int": c29[int],
		"uint8": c29[uint8], "uint16": c29[uint16], "uint32": c29[uint32], "uint64": c29[uint64], "uint": c29[uint], "uintptr": c29[uintptr],
		"float32": c29[float32], "float64": c29[float64],
	}, c)
}

func c29type[T constraints.Type]() {
	sym.Assert(!gb.IsSparseMatrix[T](gb.NewDenseMatrix[T](2, 2)), "a dense matrix is not sparse")
	sym.Assert(!gb.IsSparseMatrix[T](gb.NewDenseVector[T](2)), "a dense vector is not sparse")
	sym.Assert(!gb.IsSparseMatrix(gb.NewDenseMatrix[T](1, 2).Transpose()), "a dense transposition is not sparse")
	sym.Assert(!gb.IsSparseMatrix[T](gb.NewDenseMatrix[T](1, 2).RowsAt(0)), "a row of a dense matrix is not sparse")
}

// further storage formats
type diagonal[T Num] struct{ gb.Matrix[T] }
type banded[T Num] struct{ gb.Matrix[T] }

func c29[T Num](c sym.Cfg) {
	c29type[T]()
	v := sym.Val[T]("v")
	known := [2]bool{}
	check := func() {
		for _, k := range allKinds {
			m := empty[T](k, 2, 1)
			sym.Assert(gb.IsSparseMatrix[T](m) == sparse(k), "sparsity of an empty "+k)
			m.Set(1, 0, v)
			sym.Assert(gb.IsSparseMatrix[T](m) == sparse(k), "sparsity of a "+k)
			sym.Assert(gb.IsSparseMatrix[T](m.Copy()) == sparse(k), "sparsity of a copied "+k)
		}
		sym.Assert(gb.IsSparseMatrix[T](&diagonal[T]{empty[T]("csr", 2, 2)}) == known[0], "sparsity of a further type")
		sym.Assert(gb.IsSparseMatrix[T](&banded[T]{empty[T]("dense", 2, 2)}) == known[1], "sparsity of another further type")
	}
	check()
	for s := 0; s < 3; s++ {
		which := sym.Choose(2)
		t := reflect.TypeOf((*diagonal[T])(nil)).Elem()
		if which == 1 {
			t = reflect.TypeOf((*banded[T])(nil)).Elem()
		}
		sym.Assert(try(func() { gb.RegisterMatrix(t) }) == known[which], "registering a type panics exactly when it is registered")
		known[which] = true
		check()
	}
}

// ---- C30

type errParent struct{}

func (errParent) Error() string { return "parent" }

type parentCtx struct {
	at   time.Time
	has  bool
	done chan struct{}
	err  error
	key  int
	val  int
}

func (p *parentCtx) Deadline() (time.Time, bool) { return p.at, p.has }
func (p *parentCtx) Done() <-chan struct{}       { return p.done }
func (p *parentCtx) Err() error                  { return p.err }
func (p *parentCtx) Value(k any) any {
	if i, ok := k.(int); ok && i == p.key {
		return p.val
	}
	return nil
}

func C30(c sym.Cfg) {
	mode, other := sym.Val[int]("mode"), sym.Val[int]("mode")
	p := &parentCtx{done: make(chan struct{}), has: sym.Bool("deadline"), key: sym.Val[int]("key"), val: sym.Val[int]("value")}
	p.at = time.Time{}.Add(1700000000 * time.Second)
	if sym.Bool("failed") {
		p.err = errParent{}
		close(p.done)
	}
	plain := func(ctx context.Context, what string) {
		m, ok := gb.BlockingMode(ctx)
		sym.Assert(sym.And(sym.Not(ok), m == gb.Blocking), what+" reports blocking and absent")
	}
	plain(p, "a plain context")
	plain(context.Background(), "the background context")
	ctx := gb.NewContext(p, mode)
	m, ok := gb.BlockingMode(ctx)
	sym.Assert(sym.And(ok, m == mode), "the context reports its mode")
	g, is := ctx.(gb.Context)
	sym.Assert(is, "the context has a mode")
	if is {
		sym.Assert(g.Mode() == mode, "the context's mode")
	}
	k := sym.Val[int]("lookup")
	inherits := func(ctx context.Context) {
		at, has := ctx.Deadline()
		sym.Assert(sym.Iff(has, p.has), "deadline of the parent")
		sym.Assert(at == p.at, "deadline of the parent")
		sym.Assert(ctx.Err() == p.err, "error of the parent")
		sym.Assert(ctx.Done() == (<-chan struct{})(p.done), "cancellation of the parent")
		got, is := ctx.Value(k).(int)
		sym.Assert(sym.Iff(is, k == p.key), "values of the parent")
		if is {
			sym.Assert(got == p.val, "values of the parent")
		}
		sym.Assert(ctx.Value("none") == nil, "values the parent does not have")
	}
	inherits(ctx)
	// contexts of contexts
	in := gb.NewContext(ctx, other)
	m, ok = gb.BlockingMode(in)
	sym.Assert(sym.And(ok, m == other), "the inner context reports its own mode")
	m, ok = gb.BlockingMode(ctx)
	sym.Assert(sym.And(ok, m == mode), "the outer context keeps its mode")
	inherits(in)
	plain(p, "the parent")
	// a parent that is cancelled later
	if p.err == nil {
		p.err = errParent{}
		close(p.done)
		sym.Assert(ctx.Err() == error(errParent{}), "error of a parent cancelled later")
		select {
		case <-ctx.Done():
		default:
			sym.Fail("cancellation of a parent cancelled later")
		}
		inherits(in)
	}
}
