package props

import (
	"strings"

	gb "github.com/rossmerr/graphblas"

	"verif/harness/sym"
)

func init() {
	Registry["C28"] = C28
	jobsOf["C28"] = func(thorough bool) []Job {
		var l []Job
		add := func(k, typ, prog string, preempt, r, c int) {
			what := "arbitrary contents and arguments, data races, "
			if preempt < 0 {
				what += "all interleavings"
			} else {
				what += "at most " + itoa(preempt) + " scheduling decisions off the default"
			}
			j := mk("C28", prog, typ, []string{k}, false, what+"; programs of the goroutines separated by |, * is any operation, *x any from x on in "+strings.Join(mutexOps, " "), r, c)
			j.Cfg.Race = true
			j.Cfg.Preempt = preempt
			l = append(l, j)
		}
		for _, k := range matKinds {
			for _, o := range mutexOps {
				add(k, "int8", o+"|*"+o, -1, 1, 2)
			}
			add(k, "int8", "*", -1, 2, 2)
			add(k, "int8", "*;*", -1, 1, 2)
			for _, p := range []string{"set;at|set;at", "update;at|update;at", "clear;values|set;at", "set;set|rows;cols", "set;update|copy;element"} {
				add(k, "int8", p, 3, 1, 2)
			}
			add(k, "int8", "set|update|at", 2, 1, 2)
			if thorough {
				for _, o := range mutexOps {
					add(k, "int8", o+"|*", -1, 2, 1)
					add(k, "int8", o+";at|set;*", 2, 1, 2)
				}
				for _, p := range []string{"set;at|set;at", "update;at|update;at", "clear;values|set;at", "set;set|rows;cols", "set;update|copy;element"} {
					add(k, "int8", p, -1, 1, 2)
				}
				add(k, "int8", "*;*", -1, 2, 2)
				add(k, "int8", "set|update|*", 3, 1, 2)
				add(k, "int8", "set|*|*", 1, 1, 2)
				add(k, "float64", "update|*", -1, 1, 2)
			}
		}
		for _, k := range vecKinds {
			for _, o := range mutexOps {
				if o == "set" || o == "update" || o == "clear" || o == "values" || thorough {
					add(k, "int8", o+"|*"+o, -1, 2, 1)
				}
			}
			add(k, "int8", "*", -1, 2, 1)
		}
		return l
	}
}

var mutexOps = []string{"set", "update", "clear", "badset", "badat", "badupdate", "fupdate", "at", "element", "values", "copy", "cols", "rows", "array", "badrows", "scalar", "add", "sub", "mul", "neg", "trans", "equal", "notequal", "enumerate", "map"}

// result is what one operation gave; operands are drawn before the goroutines start.
type result[T Num] struct {
	panicked bool
	n        int
	b        bool
	g        [][]T
	from, to int // when it was called and when it returned
}

type mutexOp[T Num] struct {
	name string
	i, j int
	v, w T
	got  result[T]
}

func C28(c sym.Cfg) {
	switch c.Typ {
	case "int8":
		c28[int8](c)
	case "float64":
		c28[float64](c)
	}
}

func newMutexOp[T Num](name string, R, C int) *mutexOp[T] {
	if name[0] == '*' {
		l := mutexOps
		for len(name) > 1 && l[0] != name[1:] {
			l = l[1:]
		}
		name = l[sym.Choose(len(l))]
	}
	o := &mutexOp[T]{name: name}
	switch name {
	case "set", "update", "at", "element", "fupdate":
		o.i, o.j = sym.Choose(R), sym.Choose(C)
	case "cols":
		o.j = sym.Choose(C)
	case "rows", "array":
		o.i = sym.Choose(R)
	}
	switch name {
	case "set", "update", "scalar", "map":
		o.v = vals[T]("v", 1)[0]
	}
	switch name {
	case "update":
		o.w = vals[T]("w", 1)[0]
	}
	return o
}

// step is the function updates apply.
func (o *mutexOp[T]) step(x T) T { return sym.Ite(x == o.v, 0, x+o.w) }

// other is the operand of binary operations.
func other[T Num](R, C int) [][]T { return fixed[T](R, C, 0) }

func vectorOf[T Num](v gb.VectorLogial[T]) [][]T {
	g := zeros[T](1, v.Length())
	for i := range g[0] {
		g[0][i] = v.AtVec(i)
	}
	return g
}

func (o *mutexOp[T]) run(m *gb.MutexMatrix[T], kind string) {
	R, C := m.Rows(), m.Columns()
	r := &o.got
	sym.Yield()
	r.from = sym.Stamp()
	switch o.name {
	case "set":
		m.Set(o.i, o.j, o.v)
	case "update":
		m.Update(o.i, o.j, func(x T) T {
			r.n++
			sym.Yield()
			return o.step(x)
		})
	case "fupdate": // the function fails
		r.panicked = try(func() { m.Update(o.i, o.j, func(x T) T { panic("f") }) })
	case "clear":
		m.Clear()
	case "badset":
		r.panicked = try(func() { m.Set(R, 0, 1) })
	case "badupdate":
		r.panicked = try(func() { m.Update(0, -1, func(x T) T { return x }) })
	case "badat":
		r.panicked = try(func() { m.At(0, C) })
	case "badrows":
		r.panicked = try(func() { m.RowsAt(R) })
	case "at":
		r.g = [][]T{{m.At(o.i, o.j)}}
	case "element":
		r.b = m.Element(o.i, o.j)
	case "values":
		r.n = m.Values()
	case "copy":
		r.g = content[T](m.Copy())
	case "cols":
		r.g = vectorOf(m.ColumnsAt(o.j))
	case "rows":
		r.g = vectorOf(m.RowsAt(o.i))
	case "array":
		r.g = [][]T{append([]T(nil), m.RowsAtToArray(o.i)...)}
	case "scalar":
		r.g = content[T](m.Scalar(o.v))
	case "add":
		r.g = content[T](m.Add(build(kind, other[T](R, C))))
	case "sub":
		r.g = content[T](m.Subtract(build(kind, other[T](R, C))))
	case "mul":
		r.g = content[T](m.Multiply(build(kind, other[T](C, 1))))
	case "neg":
		r.g = content[T](m.Negative())
	case "trans":
		r.g = content[T](m.Transpose())
	case "equal":
		r.b = m.Equal(build(kind, other[T](R, C)))
	case "notequal":
		r.b = m.NotEqual(build(kind, other[T](R, C)))
	case "enumerate":
		func() {
			m.RLock()
			defer m.RUnlock()
			r.g = zeros[T](R, C)
			for it := m.Enumerate(); it.HasNext(); {
				i, j, x := it.Next()
				r.g[i][j] = x
			}
		}()
	case "map":
		func() {
			m.Lock()
			defer m.Unlock()
			for it := m.Map(); it.HasNext(); {
				it.Map(func(i, j int, x T) T { return sym.Ite(x == o.v, 0, x) })
			}
		}()
	default:
		panic("operation " + o.name)
	}
	r.to = sym.Stamp()
}

// model runs the operation alone on g, and gives what it returns.
func (o *mutexOp[T]) model(g [][]T, sparse bool) ([][]T, result[T]) {
	var r result[T]
	R, C := len(g), width(g)
	h := clone(g)
	each := func(R, C int, f func(i, j int) T) [][]T {
		z := zeros[T](R, C)
		for i := range z {
			for j := range z[i] {
				z[i][j] = f(i, j)
			}
		}
		return z
	}
	switch o.name {
	case "set":
		h[o.i][o.j] = o.v
	case "update":
		h[o.i][o.j] = o.step(h[o.i][o.j])
		r.n = 1
	case "clear":
		h = zeros[T](R, C)
	case "badset", "badupdate", "badat", "badrows", "fupdate":
		r.panicked = true
	case "at":
		r.g = [][]T{{g[o.i][o.j]}}
	case "element":
		r.b = g[o.i][o.j] > 0
	case "values":
		r.n = R * C
		if sparse {
			r.n = 0
			for i := range g {
				for j := range g[i] {
					r.n += sym.Ite(g[i][j] != 0, 1, 0)
				}
			}
		}
	case "copy", "enumerate":
		r.g = h
	case "cols":
		r.g = each(1, R, func(_, i int) T { return g[i][o.j] })
	case "rows", "array":
		r.g = [][]T{h[o.i]}
	case "scalar":
		r.g = each(R, C, func(i, j int) T { return o.v * g[i][j] })
	case "add":
		y := other[T](R, C)
		r.g = each(R, C, func(i, j int) T { return g[i][j] + y[i][j] })
	case "sub":
		y := other[T](R, C)
		r.g = each(R, C, func(i, j int) T { return g[i][j] - y[i][j] })
	case "mul":
		r.g = product(g, other[T](C, 1))
	case "neg":
		r.g = each(R, C, func(i, j int) T { return -g[i][j] })
	case "trans":
		r.g = transposed(g)
	case "equal", "notequal":
		y := other[T](R, C)
		r.b = true
		for i := range g {
			for j := range g[i] {
				r.b = sym.And(r.b, g[i][j] == y[i][j])
			}
		}
		if o.name == "notequal" {
			r.b = sym.Not(r.b)
		}
	case "map":
		h = each(R, C, func(i, j int) T { return sym.Ite(g[i][j] == o.v, 0, g[i][j]) })
	}
	return h, r
}

func sameGrid[T Num](a, b [][]T) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			ok = sym.And(ok, sym.Same(a[i][j], b[i][j]))
		}
	}
	return ok
}

func c28[T Num](c sym.Cfg) {
	R, C := c.N[0], c.N[1]
	x := grid[T]("a", R, C)
	m := gb.NewMutexMatrix(build(c.Kind[0], x))
	var progs [][]*mutexOp[T]
	for _, p := range strings.Split(c.Op, "|") {
		var l []*mutexOp[T]
		for _, o := range strings.Split(p, ";") {
			l = append(l, newMutexOp[T](o, R, C))
		}
		progs = append(progs, l)
	}
	sym.Assert(m.Rows() == R && m.Columns() == C && m.Size() == R*C, "dimensions of the mutex matrix")
	done := make(chan bool)
	for _, p := range progs {
		p := p
		go func() {
			for _, o := range p {
				o.run(m, c.Kind[0])
			}
			done <- true
		}()
	}
	for range progs {
		<-done
	}
	end := content[T](m.Copy())
	// some order of the operations, respecting which returned before another was called, explains the results
	sp := sparse(c.Kind[0])
	ok := false
	at := make([]int, len(progs))
	var place func(g [][]T, so bool)
	place = func(g [][]T, so bool) {
		last := true
		for k, p := range progs {
			if at[k] == len(p) {
				continue
			}
			last = false
			o := p[at[k]]
			late := false // another operation returned before this one was called and is not placed
			for q, p2 := range progs {
				if q != k && at[q] < len(p2) && p2[at[q]].got.to < o.got.from {
					late = true
				}
			}
			if late {
				continue
			}
			h, r := o.model(g, sp)
			if o.got.panicked != r.panicked {
				continue
			}
			at[k]++
			place(h, sym.And(so, o.got.n == r.n, sym.Iff(o.got.b, r.b), sameGrid(o.got.g, r.g)))
			at[k]--
		}
		if last {
			ok = sym.Or(ok, sym.And(so, sameGrid(g, end)))
		}
	}
	place(x, true)
	sym.Assert(ok, "the results are those of some order of the operations")
}
