package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Program is the loaded code, shared by the workers.
type Program struct {
	prog     *ssa.Program
	infos    sync.Map // *ssa.Function -> *fnInfo
	initPkgs []*ssa.Package
	inited   map[*ssa.Package]bool
	harness  *ssa.Package
	repoPath string
	methods  sync.Map // methKey -> *ssa.Function
	asserts  sync.Map // assertKey -> bool
	rtErr    types.Type
	rtypePtr types.Type
	msets    sync.Mutex
}

type opnd struct {
	kind uint8 // 0 register, 1 constant, 2 global
	i    int
	v    value
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	o   []opnd
	k   nk // operand kind (BinOp, UnOp, ...)
	k2  nk
	t   types.Type
	aux any
}

type cblock struct {
	ins []cinstr
	mrg *merge // if-conversion of the branch that ends the block
}

type fnInfo struct {
	fn     *ssa.Function
	n      int // registers
	blocks []cblock
	intr   intrinsic
	noBody bool
	defers bool
	calls  int64
	repo   bool
	initFn bool
	name   string
}

type intrinsic func(fr *frame, fn *ssa.Function, args []value) value

func (P *Program) info(fn *ssa.Function) *fnInfo {
	if x, ok := P.infos.Load(fn); ok {
		return x.(*fnInfo)
	}
	x := P.compile(fn)
	y, _ := P.infos.LoadOrStore(fn, x)
	return y.(*fnInfo)
}

func (P *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fn.String()}
	org := fn
	if o := fn.Origin(); o != nil {
		org = o
	}
	if pk := org.Package(); pk != nil {
		p := pk.Pkg.Path()
		fi.repo = p == P.repoPath || len(p) > len(P.repoPath) && p[:len(P.repoPath)+1] == P.repoPath+"/"
	} else if obj := org.Object(); obj != nil && obj.Pkg() != nil {
		p := obj.Pkg().Path()
		fi.repo = p == P.repoPath || len(p) > len(P.repoPath) && p[:len(P.repoPath)+1] == P.repoPath+"/"
	}
	fi.initFn = fn.Synthetic == "package initializer"
	fi.intr = findIntrinsic(fn)
	if fi.intr != nil {
		return fi
	}
	if len(fn.Blocks) == 0 {
		fi.noBody = true
		return fi
	}
	idx := map[ssa.Value]int{}
	add := func(v ssa.Value) {
		idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{kind: 1, v: constValue(x)}
		case *ssa.Global:
			return opnd{kind: 2, v: x}
		case *ssa.Function:
			return opnd{kind: 1, v: x}
		case *ssa.Builtin:
			return opnd{kind: 1, v: x}
		}
		i, ok := idx[v]
		if !ok {
			panic(unsupported{fmt.Sprintf("operand %T %s in %s", v, v.Name(), fn)})
		}
		return opnd{i: i}
	}
	for _, b := range fn.Blocks {
		var cb cblock
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = idx[v]
				ci.t = v.Type()
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.BinOp:
				ci.o = []opnd{op(x.X), op(x.Y)}
				ci.k = kindOf(x.X.Type())
				ci.k2 = kindOf(x.Y.Type())
				ci.aux = x.X.Type()
			case *ssa.UnOp:
				ci.o = []opnd{op(x.X)}
				ci.k = kindOf(x.X.Type())
			case *ssa.Phi:
				for _, e := range x.Edges {
					ci.o = append(ci.o, op(e))
				}
			case *ssa.Call:
				ci.o = callOps(op, &x.Call)
			case *ssa.Go:
				ci.o = callOps(op, &x.Call)
			case *ssa.Defer:
				ci.o = callOps(op, &x.Call)
				fi.defers = true
			case *ssa.Convert:
				ci.o = []opnd{op(x.X)}
				ci.k = kindOf(x.X.Type())
				ci.k2 = kindOf(x.Type())
			case *ssa.MultiConvert:
				ci.o = []opnd{op(x.X)}
				ci.k = kindOf(x.X.Type())
				ci.k2 = kindOf(x.Type())
			default:
				var rands [10]*ssa.Value
				for _, r := range in.Operands(rands[:0]) {
					if *r == nil {
						ci.o = append(ci.o, opnd{kind: 1})
						continue
					}
					ci.o = append(ci.o, op(*r))
				}
				switch y := in.(type) {
				case *ssa.IndexAddr:
					ci.k = kindOf(y.Index.Type())
				case *ssa.Index:
					ci.k = kindOf(y.Index.Type())
				case *ssa.Lookup:
					ci.k = kindOf(y.Index.Type())
				case *ssa.MakeSlice:
					ci.k = kindOf(y.Len.Type())
					ci.k2 = kindOf(y.Cap.Type())
				case *ssa.Slice:
					// operands: X, Low, High, Max (nil ones skipped by Operands? keep explicit)
					ci.o = []opnd{op(y.X), {kind: 1}, {kind: 1}, {kind: 1}}
					if y.Low != nil {
						ci.o[1] = op(y.Low)
						ci.k = kindOf(y.Low.Type())
					}
					if y.High != nil {
						ci.o[2] = op(y.High)
					}
					if y.Max != nil {
						ci.o[3] = op(y.Max)
					}
				case *ssa.Select:
					ci.o = nil
					for _, st := range y.States {
						ci.o = append(ci.o, op(st.Chan))
						if st.Send != nil {
							ci.o = append(ci.o, op(st.Send))
						} else {
							ci.o = append(ci.o, opnd{kind: 1})
						}
					}
				}
			}
			cb.ins = append(cb.ins, ci)
		}
		if len(b.Succs) == 2 {
			cb.mrg = fi.findMerge(b)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	if fn.Recover != nil {
		fi.defers = true
	}
	return fi
}

func callOps(op func(ssa.Value) opnd, c *ssa.CallCommon) []opnd {
	r := []opnd{op(c.Value)}
	for _, a := range c.Args {
		r = append(r, op(a))
	}
	return r
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	if t, ok := c.Type().Underlying().(*types.Basic); ok {
		k := kindOf(t)
		switch k.c {
		case cBool:
			return constant.BoolVal(c.Value)
		case cInt:
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			return norm(i, k)
		case cUint:
			u, ok := constant.Uint64Val(constant.ToInt(c.Value))
			if !ok {
				i, _ := constant.Int64Val(constant.ToInt(c.Value))
				u = uint64(i)
			}
			return norm(int64(u), k)
		case cFloat:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if k.w == 32 {
				f = float64(float32(f))
			}
			return f
		case cString:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case cComplex:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		}
	}
	panic(unsupported{fmt.Sprintf("constant %s", c)})
}

// Interp is one worker's interpreter.
type Interp struct {
	P    *Program
	tt   *TermTable
	sol  *Solver
	snap map[*ssa.Global]*value
	real bool
	run  *Run
}

type deferred struct {
	fn   value
	args []value
	tail *deferred
}

type frame struct {
	in        *Interp
	g         *goroutine
	caller    *frame
	fi        *fnInfo
	regs      []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    value
	panicking bool
	panic     any
	pos       token.Pos
	merged    bool // the phis of the block are already evaluated
}

func (fr *frame) get(o *opnd) value {
	switch o.kind {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	}
	return fr.in.globalAddr(o.v.(*ssa.Global))
}

func (in *Interp) globalAddr(g *ssa.Global) *value {
	r := in.run
	if p, ok := r.globals[g]; ok {
		return p
	}
	if s, ok := in.snap[g]; ok && s != nil {
		p := r.dc.ptr(s)
		r.globals[g] = p
		return p
	}
	if !in.P.inited[g.Pkg] && !r.initPhase && !allowUninit(g) {
		panic(unsupported{"uninitialised package variable " + g.String()})
	}
	p := new(value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	r.globals[g] = p
	return p
}

func (in *Interp) rtPanic(msg string) any {
	return targetPanic{iface{t: in.P.rtErr, v: msg}}
}

func (fr *frame) throw(msg string) { panic(fr.in.rtPanic(msg)) }

// call invokes fnv.
func (in *Interp) call(g *goroutine, caller *frame, fnv value, args []value) value {
	switch fn := fnv.(type) {
	case *ssa.Function:
		if fn == nil {
			panic(in.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return in.callFn(g, caller, fn, args, nil)
	case *closure:
		return in.callFn(g, caller, fn.fn, args, fn.env)
	case *ssa.Builtin:
		return in.builtin(caller, fn, args, nil)
	case nativeFn:
		return fn(&frame{in: in, g: g, caller: caller, fi: nativeInfo}, args)
	}
	panic(unsupported{fmt.Sprintf("call of %T", fnv)})
}

var nativeInfo = &fnInfo{name: "native"}

type nativeFn func(fr *frame, args []value) value

const maxDepth = 4000

func (in *Interp) callFn(g *goroutine, caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := in.P.info(fn)
	if fi.repo {
		atomic.AddInt64(&fi.calls, 1)
	}
	if fi.intr != nil {
		fr := &frame{in: in, g: g, caller: caller, fi: fi}
		return fi.intr(fr, fn, args)
	}
	if fi.noBody {
		panic(unsupported{"function without body: " + fi.name})
	}
	if fi.initFn && g.depth > 0 {
		return nil // imported packages are initialised separately, in dependency order
	}
	g.depth++
	if g.depth > maxDepth {
		in.run.fail("stack-overflow", "unbounded recursion in "+fi.name, true)
	}
	fr := &frame{in: in, g: g, caller: caller, fi: fi, regs: make([]value, fi.n)}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	fr.block = fn.Blocks[0]
	if fi.defers {
		for fr.block != nil {
			fr.runProtected()
		}
	} else {
		fr.runLoop()
	}
	g.depth--
	return fr.result
}

func (fr *frame) runProtected() {
	depth := fr.g.depth
	defer func() {
		if fr.block == nil {
			return
		}
		p := recover()
		tp, ok := p.(targetPanic)
		if !ok {
			panic(p)
		}
		fr.g.depth = depth
		fr.panicking = true
		fr.panic = tp
		fr.runDefers()
		fr.block = fr.fi.fn.Recover
		if fr.block == nil {
			// no named results: return zero values
			fr.result = zeroResult(fr.fi.fn)
		}
	}()
	fr.runLoop()
}

func zeroResult(fn *ssa.Function) value {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	return zero(r)
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	depth := fr.g.depth
	defer func() {
		if !ok {
			p := recover()
			if _, is := p.(targetPanic); !is {
				panic(p)
			}
			fr.g.depth = depth
			fr.panicking = true
			fr.panic = p
		}
	}()
	fr.in.call(fr.g, fr, d.fn, d.args)
	ok = true
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func doRecover(caller *frame) value {
	if caller != nil && !caller.panicking && caller.caller != nil && caller.caller.panicking {
		p := caller.caller.panic.(targetPanic)
		caller.caller.panicking = false
		caller.caller.panic = nil
		if i, ok := p.v.(iface); ok {
			return i
		}
		return iface{t: types.Typ[types.String], v: fmt.Sprint(p.v)}
	}
	return iface{}
}

func (fr *frame) runLoop() {
	in := fr.in
	r := in.run
	for {
		cb := &fr.fi.blocks[fr.block.Index]
		// phis are evaluated simultaneously
		n := len(cb.ins)
		i := 0
		if n > 0 {
			if _, ok := cb.ins[0].in.(*ssa.Phi); ok && fr.merged {
				for i < n {
					if _, ok := cb.ins[i].in.(*ssa.Phi); !ok {
						break
					}
					i++
				}
			} else if ok {
				pi := -1
				for k, p := range fr.block.Preds {
					if p == fr.prev {
						pi = k
						break
					}
				}
				var tmp [16]value
				vals := tmp[:0]
				for i < n {
					if _, ok := cb.ins[i].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, fr.get(&cb.ins[i].o[pi]))
					i++
				}
				for k := 0; k < i; k++ {
					fr.regs[cb.ins[k].dst] = vals[k]
				}
			}
		}
		fr.merged = false
		r.steps += int64(n)
		if r.steps > r.maxSteps {
			r.fail("non-termination", fmt.Sprintf("more than %d steps", r.maxSteps), true)
		}
		if r.stop.Load() {
			panic(pathEnd{"stopped"})
		}
	next:
		for ; i < n; i++ {
			ci := &cb.ins[i]
			switch x := ci.in.(type) {
			case *ssa.If:
				c := fr.get(&ci.o[0])
				b, ok := c.(bool)
				if !ok {
					fr.pos = x.Pos()
					t := c.(*Term)
					if cb.mrg != nil && !r.raceOn && !r.decided(t) && fr.tryMerge(cb.mrg, t) {
						break next
					}
					b = r.branch(t)
				}
				fr.prev = fr.block
				if b {
					fr.block = fr.block.Succs[0]
				} else {
					fr.block = fr.block.Succs[1]
				}
				break next
			case *ssa.Jump:
				fr.prev, fr.block = fr.block, fr.block.Succs[0]
				break next
			case *ssa.Return:
				switch len(ci.o) {
				case 0:
				case 1:
					fr.result = copyVal(fr.get(&ci.o[0]))
				default:
					t := make(tuple, len(ci.o))
					for k := range ci.o {
						t[k] = copyVal(fr.get(&ci.o[k]))
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.BinOp:
				a, b := fr.get(&ci.o[0]), fr.get(&ci.o[1])
				// fast path: concrete integers
				if ai, ok := a.(int64); ok {
					if bi, ok := b.(int64); ok {
						if v, ok := fastInt(x.Op, ci.k, ai, bi); ok {
							fr.regs[ci.dst] = v
							continue
						}
					}
				}
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.binop(x.Op, ci.k, ci.k2, ci.aux.(types.Type), a, b)
			case *ssa.UnOp:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.unop(x, ci, fr.get(&ci.o[0]))
			case *ssa.Store:
				p, _ := fr.get(&ci.o[0]).(*value)
				if p == nil {
					fr.pos = x.Pos()
					fr.throw("invalid memory address or nil pointer dereference")
				}
				if r.raceOn {
					fr.pos = x.Pos()
					fr.raceWrite(p)
				}
				assign(p, copyVal(fr.get(&ci.o[1])))
			case *ssa.IndexAddr:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.indexAddr(ci)
			case *ssa.FieldAddr:
				p, _ := fr.get(&ci.o[0]).(*value)
				if p == nil {
					fr.pos = x.Pos()
					fr.throw("invalid memory address or nil pointer dereference")
				}
				s, ok := (*p).(structv)
				if !ok {
					panic(unsupported{fmt.Sprintf("field address of %T in %s", *p, fr.fi.name)})
				}
				fr.regs[ci.dst] = &s[x.Field]
			case *ssa.Field:
				s, ok := fr.get(&ci.o[0]).(structv)
				if !ok {
					panic(unsupported{"field of non-struct"})
				}
				fr.regs[ci.dst] = s[x.Field]
			case *ssa.Alloc:
				p := new(value)
				*p = zero(x.Type().(*types.Pointer).Elem())
				fr.regs[ci.dst] = p
			case *ssa.Call:
				fr.pos = x.Pos()
				fn, args := fr.prepareCall(&x.Call, ci)
				if b, ok := fn.(*ssa.Builtin); ok {
					fr.regs[ci.dst] = in.builtin(fr, b, args, x.Call.Args)
				} else {
					fr.regs[ci.dst] = in.call(fr.g, fr, fn, args)
				}
			case *ssa.Extract:
				fr.regs[ci.dst] = fr.get(&ci.o[0]).(tuple)[x.Index]
			case *ssa.MakeInterface:
				fr.regs[ci.dst] = iface{t: x.X.Type(), v: copyVal(fr.get(&ci.o[0]))}
			case *ssa.ChangeType:
				fr.regs[ci.dst] = fr.get(&ci.o[0])
			case *ssa.ChangeInterface:
				fr.regs[ci.dst] = fr.get(&ci.o[0])
			case *ssa.Convert:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.convert(x.X.Type(), x.Type(), ci.k, ci.k2, fr.get(&ci.o[0]))
			case *ssa.MultiConvert:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.convert(x.X.Type(), x.Type(), ci.k, ci.k2, fr.get(&ci.o[0]))
			case *ssa.MakeClosure:
				env := make([]value, len(ci.o)-1)
				for k := range env {
					env[k] = fr.get(&ci.o[k+1])
				}
				fr.regs[ci.dst] = &closure{x.Fn.(*ssa.Function), env}
			case *ssa.MakeSlice:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.makeSlice(x, ci)
			case *ssa.Slice:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.slice(x, ci)
			case *ssa.Phi:
				panic("unexpected phi")
			case *ssa.TypeAssert:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.typeAssert(x, fr.get(&ci.o[0]).(iface))
			case *ssa.MakeMap:
				fr.regs[ci.dst] = &mapv{idx: map[any]int{}}
			case *ssa.MakeChan:
				sz := fr.concInt(fr.get(&ci.o[0]), nk{cInt, 64})
				fr.regs[ci.dst] = &chanv{cap: int(sz), id: r.nextChan()}
			case *ssa.MapUpdate:
				m, _ := fr.get(&ci.o[0]).(*mapv)
				if m == nil {
					panic(targetPanic{iface{t: in.P.rtErr, v: "assignment to entry in nil map"}})
				}
				if r.raceOn {
					fr.pos = x.Pos()
					fr.raceMap(m, true)
				}
				fr.mapSet(m, x.Map.Type().Underlying().(*types.Map).Key(), fr.get(&ci.o[1]), copyVal(fr.get(&ci.o[2])))
			case *ssa.Lookup:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.lookup(x, ci)
			case *ssa.Index:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.index(x, ci)
			case *ssa.Range:
				fr.regs[ci.dst] = fr.rangeIter(fr.get(&ci.o[0]))
			case *ssa.Next:
				fr.regs[ci.dst] = fr.next(x, fr.get(&ci.o[0]))
			case *ssa.Go:
				fr.pos = x.Pos()
				fn, args := fr.prepareCall(&x.Call, ci)
				r.spawn(fr.g, fr, fn, args)
			case *ssa.Defer:
				fn, args := fr.prepareCall(&x.Call, ci)
				fr.defers = &deferred{fn, args, fr.defers}
			case *ssa.RunDefers:
				fr.runDefers()
			case *ssa.Panic:
				fr.pos = x.Pos()
				panic(targetPanic{fr.get(&ci.o[0])})
			case *ssa.Send:
				fr.pos = x.Pos()
				ch, _ := fr.get(&ci.o[0]).(*chanv)
				fr.g.send(ch, copyVal(fr.get(&ci.o[1])))
			case *ssa.Select:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = fr.doSelect(x, ci)
			case *ssa.SliceToArrayPointer:
				panic(unsupported{"slice to array pointer"})
			default:
				panic(unsupported{fmt.Sprintf("instruction %T", ci.in)})
			}
		}
	}
}

func (fr *frame) prepareCall(c *ssa.CallCommon, ci *cinstr) (value, []value) {
	fnv := fr.get(&ci.o[0])
	if c.Method == nil {
		args := make([]value, len(ci.o)-1)
		for k := range args {
			args[k] = copyVal(fr.get(&ci.o[k+1]))
		}
		return fnv, args
	}
	recv := fnv.(iface)
	if recv.t == nil {
		fr.throw("invalid memory address or nil pointer dereference")
	}
	args := make([]value, len(ci.o))
	args[0] = copyVal(recv.v)
	for k := 1; k < len(ci.o); k++ {
		args[k] = copyVal(fr.get(&ci.o[k]))
	}
	return fr.in.P.method(recv.t, c.Method), args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (P *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := P.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	var f *ssa.Function
	P.msets.Lock()
	sel := P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel != nil {
		f = P.prog.MethodValue(sel)
	}
	P.msets.Unlock()
	if f == nil {
		panic(unsupported{fmt.Sprintf("method %s of %s not found", m.Name(), t)})
	}
	P.methods.Store(k, f)
	return f
}

func (fr *frame) typeAssert(x *ssa.TypeAssert, v iface) value {
	ok := false
	P := fr.in.P
	it, isIface := x.AssertedType.Underlying().(*types.Interface)
	if v.t != nil {
		if isIface {
			ok = P.implements(v.t, it, x.AssertedType)
		} else {
			ok = v.t == x.AssertedType || types.Identical(v.t, x.AssertedType)
		}
	}
	if ok {
		var res value = v
		if !isIface {
			res = copyVal(v.v)
		}
		if x.CommaOk {
			return tuple{res, true}
		}
		return res
	}
	if x.CommaOk {
		return tuple{zero(x.AssertedType), false}
	}
	panic(targetPanic{iface{t: P.rtErr, v: "interface conversion"}})
}

type assertKey struct{ a, b types.Type }

func (P *Program) implements(t types.Type, it *types.Interface, named types.Type) bool {
	k := assertKey{t, named}
	if b, ok := P.asserts.Load(k); ok {
		return b.(bool)
	}
	P.msets.Lock()
	b := types.Implements(t, it)
	P.msets.Unlock()
	P.asserts.Store(k, b)
	return b
}

// ---- operators -------------------------------------------------------------

func fastInt(op token.Token, k nk, a, b int64) (value, bool) {
	switch op {
	case token.ADD:
		return norm(a+b, k), true
	case token.SUB:
		return norm(a-b, k), true
	case token.MUL:
		return norm(a*b, k), true
	case token.EQL:
		return a == b, true
	case token.NEQ:
		return a != b, true
	case token.LSS:
		if k.c == cUint {
			return uint64(a) < uint64(b), true
		}
		return a < b, true
	case token.LEQ:
		if k.c == cUint {
			return uint64(a) <= uint64(b), true
		}
		return a <= b, true
	case token.GTR:
		if k.c == cUint {
			return uint64(a) > uint64(b), true
		}
		return a > b, true
	case token.GEQ:
		if k.c == cUint {
			return uint64(a) >= uint64(b), true
		}
		return a >= b, true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return norm(a^b, k), true
	case token.AND_NOT:
		return a &^ b, true
	case token.QUO:
		if b == 0 {
			return nil, false
		}
		if k.c == cUint {
			return norm(int64(uint64(a)/uint64(b)), k), true
		}
		if b == -1 {
			return norm(-a, k), true
		}
		return norm(a/b, k), true
	case token.REM:
		if b == 0 {
			return nil, false
		}
		if k.c == cUint {
			return norm(int64(uint64(a)%uint64(b)), k), true
		}
		if b == -1 {
			return int64(0), true
		}
		return norm(a%b, k), true
	}
	return nil, false
}

func (fr *frame) binop(op token.Token, k, k2 nk, t types.Type, a, b value) value {
	in := fr.in
	switch op {
	case token.EQL:
		return in.eqv(t, a, b)
	case token.NEQ:
		return in.notv(in.eqv(t, a, b))
	case token.SHL, token.SHR:
		return fr.shift(op, k, k2, a, b)
	}
	switch k.c {
	case cInt, cUint:
		if op == token.QUO || op == token.REM {
			if bt, ok := b.(*Term); ok {
				if in.run.branch(in.tt.Eq(bt, in.tt.BV(k.w, 0))) {
					fr.throw("integer divide by zero")
				}
			} else if b.(int64) == 0 {
				fr.throw("integer divide by zero")
			}
		}
		if ai, ok := a.(int64); ok {
			if bi, ok := b.(int64); ok {
				if v, ok := fastInt(op, k, ai, bi); ok {
					return v
				}
			}
		}
		x, y := in.toTerm(a, k), in.toTerm(b, k)
		s := k.c == cInt
		pick := func(so, uo Op) Op {
			if s {
				return so
			}
			return uo
		}
		tt := in.tt
		var r *Term
		switch op {
		case token.ADD:
			r = tt.bin(OBvAdd, x, y)
		case token.SUB:
			r = tt.bin(OBvSub, x, y)
		case token.MUL:
			r = tt.bin(OBvMul, x, y)
		case token.QUO:
			r = tt.bin(pick(OBvSdiv, OBvUdiv), x, y)
		case token.REM:
			r = tt.bin(pick(OBvSrem, OBvUrem), x, y)
		case token.AND:
			r = tt.bin(OBvAnd, x, y)
		case token.OR:
			r = tt.bin(OBvOr, x, y)
		case token.XOR:
			r = tt.bin(OBvXor, x, y)
		case token.AND_NOT:
			r = tt.bin(OBvAnd, x, tt.un(OBvNot, y))
		case token.LSS:
			r = tt.bin(pick(OBvSlt, OBvUlt), x, y)
		case token.LEQ:
			r = tt.bin(pick(OBvSle, OBvUle), x, y)
		case token.GTR:
			r = tt.bin(pick(OBvSlt, OBvUlt), y, x)
		case token.GEQ:
			r = tt.bin(pick(OBvSle, OBvUle), y, x)
		}
		if r != nil {
			return lower(r, k)
		}
	case cFloat:
		af, ok1 := a.(float64)
		bf, ok2 := b.(float64)
		if ok1 && ok2 && !(in.real && op == token.QUO && bf != 0) {
			w := uint16(k.w)
			switch op {
			case token.ADD:
				return roundFP(w, af+bf)
			case token.SUB:
				return roundFP(w, af-bf)
			case token.MUL:
				return roundFP(w, af*bf)
			case token.QUO:
				return roundFP(w, af/bf)
			case token.LSS:
				return af < bf
			case token.LEQ:
				return af <= bf
			case token.GTR:
				return af > bf
			case token.GEQ:
				return af >= bf
			}
		}
		x, y := in.toTerm(a, k), in.toTerm(b, k)
		tt := in.tt
		var r *Term
		if in.real {
			switch op {
			case token.ADD:
				r = tt.bin(ORAdd, x, y)
			case token.SUB:
				r = tt.bin(ORSub, x, y)
			case token.MUL:
				r = tt.bin(ORMul, x, y)
			case token.QUO:
				if in.run.branch(tt.Eq(y, in.realConst(0))) {
					panic(unsupported{"division by zero in exact-arithmetic mode"})
				}
				r = tt.bin(ORDiv, x, y)
			case token.LSS:
				r = tt.bin(ORLt, x, y)
			case token.LEQ:
				r = tt.bin(ORLe, x, y)
			case token.GTR:
				r = tt.bin(ORLt, y, x)
			case token.GEQ:
				r = tt.bin(ORLe, y, x)
			}
		} else {
			switch op {
			case token.ADD:
				r = tt.bin(OFpAdd, x, y)
			case token.SUB:
				r = tt.bin(OFpSub, x, y)
			case token.MUL:
				r = tt.bin(OFpMul, x, y)
			case token.QUO:
				r = tt.bin(OFpDiv, x, y)
			case token.LSS:
				r = tt.bin(OFpLt, x, y)
			case token.LEQ:
				r = tt.bin(OFpLe, x, y)
			case token.GTR:
				r = tt.bin(OFpLt, y, x)
			case token.GEQ:
				r = tt.bin(OFpLe, y, x)
			}
		}
		if r != nil {
			return lower(r, k)
		}
	case cString:
		if op == token.ADD {
			return concatStr(a, b)
		}
		as, ok1 := a.(string)
		bs, ok2 := b.(string)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return as < bs
			case token.LEQ:
				return as <= bs
			case token.GTR:
				return as > bs
			case token.GEQ:
				return as >= bs
			}
		}
		switch op {
		case token.LSS:
			return in.strLess(a, b, false)
		case token.LEQ:
			return in.strLess(a, b, true)
		case token.GTR:
			return in.strLess(b, a, false)
		case token.GEQ:
			return in.strLess(b, a, true)
		}
	case cBool:
		x, y := in.toTerm(a, k), in.toTerm(b, k)
		switch op {
		case token.AND, token.LAND:
			return lower(in.tt.And(x, y), k)
		case token.OR, token.LOR:
			return lower(in.tt.Or(x, y), k)
		}
	case cComplex:
		ac, ok1 := a.(complex128)
		bc, ok2 := b.(complex128)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return ac + bc
			case token.SUB:
				return ac - bc
			case token.MUL:
				return ac * bc
			case token.QUO:
				return ac / bc
			}
		}
	}
	panic(unsupported{fmt.Sprintf("binop %s on %T,%T", op, a, b)})
}

func (fr *frame) shift(op token.Token, k, k2 nk, a, b value) value {
	in := fr.in
	tt := in.tt
	if k2.c == cInt {
		if bi, ok := b.(int64); ok {
			if bi < 0 {
				fr.throw("negative shift amount")
			}
		} else if in.run.branch(tt.bin(OBvSlt, b.(*Term), tt.BV(k2.w, 0))) {
			fr.throw("negative shift amount")
		}
	}
	ai, ok1 := a.(int64)
	bi, ok2 := b.(int64)
	if ok1 && ok2 {
		n := uint64(bi)
		if op == token.SHL {
			if n >= uint64(k.w) {
				return int64(0)
			}
			return norm(ai<<n, k)
		}
		if k.c == cInt {
			if n >= 63 {
				n = 63
			}
			return norm(ai>>n, k)
		}
		if n >= uint64(k.w) {
			return int64(0)
		}
		return norm(int64(uint64(ai)>>n), k)
	}
	x := in.toTerm(a, k)
	y := in.toTerm(b, k2)
	if k2.w > k.w {
		big := tt.bin(OBvUle, tt.BV(k2.w, uint64(k.w)), y)
		y = tt.Ite(big, tt.BV(k.w, mask(k.w)&uint64(k.w)), tt.Extract(y, k.w-1, 0))
	} else {
		y = tt.Zext(y, k.w)
	}
	o := OBvShl
	if op == token.SHR {
		o = OBvLshr
		if k.c == cInt {
			o = OBvAshr
		}
	}
	return lower(tt.bin(o, x, y), k)
}

func (in *Interp) notv(v value) value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return lower(in.tt.Not(v.(*Term)), nk{cBool, 1})
}

func (in *Interp) andv(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return lower(in.tt.And(a.(*Term), b.(*Term)), nk{cBool, 1})
}

// eqv is Go's == on values of type t.
func (in *Interp) eqv(t types.Type, a, b value) value {
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
	case int64:
		if y, ok := b.(int64); ok {
			return x == y
		}
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
	case complex128:
		return x == b.(complex128)
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	case *chanv:
		return x == b.(*chanv)
	case *mapv:
		return x == b.(*mapv)
	case []value:
		y := b.([]value)
		return x == nil && y == nil
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		if ok {
			return x == y
		}
		return false
	case *closure:
		return false
	case nativeFn:
		return false
	case rtype:
		y, ok := b.(rtype)
		return ok && types.Identical(x.t, y.t)
	case iface:
		y := b.(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			panic(in.rtPanic("comparing uncomparable type " + x.t.String()))
		}
		return in.eqv(x.t, x.v, y.v)
	case structv:
		y := b.(structv)
		st := t.Underlying().(*types.Struct)
		var r value = true
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = in.andv(r, in.eqv(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case arrayv:
		y := b.(arrayv)
		et := t.Underlying().(*types.Array).Elem()
		var r value = true
		for i := range x {
			r = in.andv(r, in.eqv(et, x[i], y[i]))
		}
		return r
	}
	k := kindOf(t)
	if k.c == cString {
		return in.strEq(a, b)
	}
	if k.c == cOther || k.c == cUnsafe {
		panic(unsupported{fmt.Sprintf("== on %T,%T of %s", a, b, t)})
	}
	x, y := in.toTerm(a, k), in.toTerm(b, k)
	if k.c == cFloat && !in.real {
		return lower(in.fpEq(x, y), nk{cBool, 1})
	}
	return lower(in.tt.Eq(x, y), nk{cBool, 1})
}

// fpEq is IEEE equality; against a constant it is expressed without fp.eq where that is equivalent.
func (in *Interp) fpEq(x, y *Term) *Term {
	return in.tt.bin(OFpEq, x, y)
}

func (fr *frame) unop(x *ssa.UnOp, ci *cinstr, v value) value {
	in := fr.in
	switch x.Op {
	case token.MUL: // load
		p, _ := v.(*value)
		if p == nil {
			fr.throw("invalid memory address or nil pointer dereference")
		}
		if in.run.raceOn {
			fr.raceRead(p)
		}
		return copyVal(*p)
	case token.ARROW:
		ch, _ := v.(*chanv)
		val, ok := fr.g.recv(ch)
		if !ok {
			val = zero(x.X.Type().Underlying().(*types.Chan).Elem())
		}
		if x.CommaOk {
			return tuple{val, ok}
		}
		return val
	case token.NOT:
		return in.notv(v)
	case token.SUB:
		switch y := v.(type) {
		case int64:
			return norm(-y, ci.k)
		case float64:
			return -y
		case complex128:
			return -y
		case *Term:
			switch y.sort.K {
			case SBV:
				return lower(in.tt.un(OBvNeg, y), ci.k)
			case SFP:
				return lower(in.tt.un(OFpNeg, y), ci.k)
			case SReal:
				return lower(in.tt.un(ORNeg, y), ci.k)
			}
		}
	case token.XOR:
		switch y := v.(type) {
		case int64:
			return norm(^y, ci.k)
		case *Term:
			return lower(in.tt.un(OBvNot, y), ci.k)
		}
	}
	panic(unsupported{fmt.Sprintf("unop %s on %T", x.Op, v)})
}

func (fr *frame) convert(from, to types.Type, kf, kt nk, v value) value {
	in := fr.in
	tt := in.tt
	// pointers and unsafe
	if kf.c == cUnsafe || kt.c == cUnsafe || kf.c == cOther && kt.c == cOther {
		switch to.Underlying().(type) {
		case *types.Pointer, *types.Basic:
			if p, ok := v.(*value); ok {
				return p
			}
		case *types.Slice:
			if kt.c == cOther {
				return v
			}
		}
		if _, ok := v.(int64); ok {
			panic(unsupported{"integer to pointer conversion"})
		}
		return v
	}
	switch {
	case (kf.c == cInt || kf.c == cUint) && (kt.c == cInt || kt.c == cUint):
		if i, ok := v.(int64); ok {
			return norm(i, kt)
		}
		x := v.(*Term)
		if kt.w <= kf.w {
			return lower(tt.Extract(x, kt.w-1, 0), kt)
		}
		if kf.c == cInt {
			return lower(tt.Sext(x, kt.w), kt)
		}
		return lower(tt.Zext(x, kt.w), kt)
	case (kf.c == cInt || kf.c == cUint) && kt.c == cFloat:
		if i, ok := v.(int64); ok {
			f := float64(i)
			if kf.c == cUint {
				f = float64(uint64(i))
			}
			if kt.w == 32 {
				if kf.c == cUint {
					f = float64(float32(uint64(i)))
				} else {
					f = float64(float32(i))
				}
			}
			return f
		}
		if in.real {
			panic(unsupported{"symbolic int to real"})
		}
		o := OFpFromS
		if kf.c == cUint {
			o = OFpFromU
		}
		return lower(tt.conv(o, fpSort(kt.w), v.(*Term)), kt)
	case kf.c == cFloat && kt.c == cFloat:
		if f, ok := v.(float64); ok {
			return roundFP(uint16(kt.w), f)
		}
		if in.real || kf.w == kt.w {
			return v
		}
		return lower(tt.conv(OFpFromFp, fpSort(kt.w), v.(*Term)), kt)
	case kf.c == cFloat && (kt.c == cInt || kt.c == cUint):
		if f, ok := v.(float64); ok {
			if kt.c == cUint && kt.w == 64 {
				return int64(uint64(f))
			}
			return norm(int64(f), kt)
		}
		if in.real {
			panic(unsupported{"symbolic real to int"})
		}
		o := OFpToS
		if kt.c == cUint {
			o = OFpToU
		}
		return lower(tt.conv(o, bvSort(kt.w), v.(*Term)), kt)
	case (kf.c == cInt || kf.c == cUint) && kt.c == cString:
		var out []value
		out = fr.appendRune(out, v, kf)
		return mkStr(out)
	case kf.c == cString && kt.c == cString:
		return v
	case kf.c == cString:
		if s, ok := to.Underlying().(*types.Slice); ok {
			ek := kindOf(s.Elem())
			if ek.w == 8 {
				return cloneSlice(strBytes(v))
			}
			str, ok := v.(string)
			if !ok {
				panic(unsupported{"symbolic string to []rune"})
			}
			var r []value
			for _, c := range str {
				r = append(r, int64(c))
			}
			if r == nil {
				r = []value{}
			}
			return r
		}
	case kt.c == cString:
		if s, ok := from.Underlying().(*types.Slice); ok {
			sl := v.([]value)
			if fr.in.run.raceOn {
				for i := range sl {
					fr.raceRead(&sl[i])
				}
			}
			ek := kindOf(s.Elem())
			if ek.w == 8 {
				return mkStr(cloneSlice(sl))
			}
			var out []value
			for _, e := range sl {
				out = fr.appendRune(out, e, ek)
			}
			return mkStr(out)
		}
	case kf.c == cComplex && kt.c == cComplex:
		return v
	case kf.c == cBool && kt.c == cBool:
		return v
	}
	panic(unsupported{fmt.Sprintf("convert %s to %s", from, to)})
}

func cloneSlice(s []value) []value {
	r := make([]value, len(s))
	copy(r, s)
	return r
}

func isNaN(f float64) bool { return math.IsNaN(f) }
