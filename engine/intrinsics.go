package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "verif/harness/sym."

func findIntrinsic(fn *ssa.Function) intrinsic {
	org := fn
	if o := fn.Origin(); o != nil {
		org = o
	}
	n := org.String()
	if f, ok := intrinsics[n]; ok {
		return f
	}
	if strings.HasPrefix(n, "math.") && org.Signature.Recv() == nil {
		if f, ok := mathFuncs[n[5:]]; ok {
			return mathIntrinsic(n, f)
		}
	}
	if strings.HasPrefix(n, "sync/atomic.") {
		return atomicIntrinsic(n[len("sync/atomic."):])
	}
	return nil
}

var intrinsics map[string]intrinsic

func nop(fr *frame, fn *ssa.Function, args []value) value { return zeroResult(fn) }

func cstr(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	panic(unsupported{"symbolic string argument"})
}

func panicStr(s string) any {
	return targetPanic{iface{t: types.Typ[types.String], v: s}}
}

func bytesOf(v value) []byte {
	s := v.([]value)
	b := make([]byte, len(s))
	for i, x := range s {
		c, ok := x.(int64)
		if !ok {
			panic(unsupported{"symbolic bytes"})
		}
		b[i] = byte(c)
	}
	return b
}

func (fr *frame) fromBytes(b []byte) value {
	r := make([]value, len(b))
	for i, c := range b {
		r[i] = int64(c)
	}
	return r
}

// native converts a concrete value for formatting.
func native(v value) (any, bool) {
	i, ok := v.(iface)
	if !ok {
		return nil, false
	}
	if i.t == nil {
		return nil, true
	}
	switch x := i.v.(type) {
	case bool, string, float64:
		if f, ok := x.(float64); ok && kindOf(i.t).w == 32 {
			return float32(f), true
		}
		return x, true
	case int64:
		k := kindOf(i.t)
		if k.c == cUint {
			switch k.w {
			case 8:
				return uint8(x), true
			case 16:
				return uint16(x), true
			case 32:
				return uint32(x), true
			}
			return uint64(x), true
		}
		switch k.w {
		case 8:
			return int8(x), true
		case 16:
			return int16(x), true
		case 32:
			return int32(x), true
		}
		return x, true
	}
	return nil, false
}

func sprint(f func(a ...any) string, args []value) string {
	var as []any
	for _, a := range args {
		n, ok := native(a)
		if !ok {
			n = "<value>"
		}
		as = append(as, n)
	}
	return f(as...)
}

func sprintf(args []value) string {
	format := cstr(args[0])
	va, _ := args[1].([]value)
	return sprint(func(a ...any) string { return fmt.Sprintf(format, a...) }, va)
}

var rtypeName = "*reflect.rtype"

func init() {
	lockM := func(rw bool) intrinsic {
		return func(fr *frame, fn *ssa.Function, args []value) value {
			p := args[0].(*value)
			if p == nil {
				fr.throw("invalid memory address or nil pointer dereference")
			}
			fr.g.lock(p, rw)
			return nil
		}
	}
	pm := func(f func(g *goroutine, p *value) value) intrinsic {
		return func(fr *frame, fn *ssa.Function, args []value) value {
			p := args[0].(*value)
			if p == nil {
				fr.throw("invalid memory address or nil pointer dereference")
			}
			return f(fr.g, p)
		}
	}
	intrinsics = map[string]intrinsic{
		// ---- harness API
		symPkg + "Val": func(fr *frame, fn *ssa.Function, args []value) value {
			return fr.symVar(cstr(args[0]), fn.TypeArgs()[0])
		},
		symPkg + "Bool": func(fr *frame, fn *ssa.Function, args []value) value {
			return fr.symVar(cstr(args[0]), types.Typ[types.Bool])
		},
		symPkg + "Choose": func(fr *frame, fn *ssa.Function, args []value) value {
			n := int(fr.concInt(args[0], kInt))
			i := fr.in.run.choice(n, 1)
			fr.in.run.inputs = append(fr.in.run.inputs, inputRec{Kind: "choose", Typ: "int", Val: fmt.Sprint(i)})
			return int64(i)
		},
		symPkg + "Assume": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.in.run.assume(args[0])
			return nil
		},
		symPkg + "Assert": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.in.run.assert(args[0], cstr(args[1]), fr.callerPos())
			return nil
		},
		symPkg + "Fail": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.in.run.assert(false, cstr(args[0]), fr.callerPos())
			return nil
		},
		symPkg + "Cover": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.in.run.covers[cstr(args[0])] = true
			return nil
		},
		symPkg + "NoLeaks": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.in.run.noLeaks = true
			return nil
		},
		symPkg + "And": func(fr *frame, fn *ssa.Function, args []value) value {
			var r value = true
			for _, a := range args[0].([]value) {
				r = fr.in.andv(r, a)
			}
			return r
		},
		symPkg + "Or": func(fr *frame, fn *ssa.Function, args []value) value {
			var r value = true
			for _, a := range args[0].([]value) {
				r = fr.in.andv(r, fr.in.notv(a))
			}
			return fr.in.notv(r)
		},
		symPkg + "Not": func(fr *frame, fn *ssa.Function, args []value) value { return fr.in.notv(args[0]) },
		symPkg + "Implies": func(fr *frame, fn *ssa.Function, args []value) value {
			return fr.in.notv(fr.in.andv(args[0], fr.in.notv(args[1])))
		},
		symPkg + "Iff": func(fr *frame, fn *ssa.Function, args []value) value {
			return fr.in.eqv(types.Typ[types.Bool], args[0], args[1])
		},
		symPkg + "Ite": func(fr *frame, fn *ssa.Function, args []value) value {
			if b, ok := args[0].(bool); ok {
				if b {
					return args[1]
				}
				return args[2]
			}
			k := kindOf(fn.TypeArgs()[0])
			return lower(fr.in.tt.Ite(args[0].(*Term), fr.in.toTerm(args[1], k), fr.in.toTerm(args[2], k)), k)
		},
		symPkg + "Same": func(fr *frame, fn *ssa.Function, args []value) value {
			t := fn.TypeArgs()[0]
			k := kindOf(t)
			in := fr.in
			if k.c == cFloat && !in.real {
				x, y := in.toTerm(args[0], k), in.toTerm(args[1], k)
				if x == y {
					return true
				}
				tt := in.tt
				return lower(tt.Or(tt.Eq(x, y), tt.bin(OFpEq, x, y)), kBool)
			}
			return in.eqv(t, args[0], args[1])
		},
		symPkg + "Finite": func(fr *frame, fn *ssa.Function, args []value) value {
			k := kindOf(fn.TypeArgs()[0])
			in := fr.in
			if k.c != cFloat || in.real {
				return true
			}
			x := in.toTerm(args[0], k)
			tt := in.tt
			return lower(tt.And(tt.Not(tt.un(OFpIsNaN, x)), tt.Not(tt.un(OFpIsInf, x))), kBool)
		},
		symPkg + "Observe": func(fr *frame, fn *ssa.Function, args []value) value {
			r := fr.in.run
			var vs []obsVal
			for _, a := range args[0].([]value) {
				vs = append(vs, fr.obsOf(a))
			}
			r.obsTerms = append(r.obsTerms, vs)
			return nil
		},
		symPkg + "Exact": func(fr *frame, fn *ssa.Function, args []value) value { return fr.in.real },
		symPkg + "Atomically": func(fr *frame, fn *ssa.Function, args []value) value {
			was := fr.in.run.raceOn
			fr.in.run.raceOn = false
			fr.in.call(fr.g, fr, args[0], nil)
			fr.in.run.raceOn = was
			return nil
		},
		symPkg + "Stamp": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.in.run.stamp++
			return fr.in.run.stamp
		},
		symPkg + "Yield": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.g.point(&visOp{enabled: func() bool { return true }, what: "yield"})
			return nil
		},

		// ---- log, fmt, os
		"log.Panicf": func(fr *frame, fn *ssa.Function, args []value) value { panic(panicStr(sprintf(args))) },
		"log.Panic": func(fr *frame, fn *ssa.Function, args []value) value {
			panic(panicStr(sprint(fmt.Sprint, args[0].([]value))))
		},
		"log.Panicln": func(fr *frame, fn *ssa.Function, args []value) value {
			panic(panicStr(sprint(fmt.Sprintln, args[0].([]value))))
		},
		"log.Fatalf": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.in.run.fail("fatal", "log.Fatalf: process exits", false)
			return nil
		},
		"log.Fatal": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.in.run.fail("fatal", "log.Fatal: process exits", false)
			return nil
		},
		"os.Exit": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.in.run.fail("fatal", "os.Exit", false)
			return nil
		},
		"log.Printf": nop, "log.Print": nop, "log.Println": nop,
		"fmt.Printf": nop, "fmt.Print": nop, "fmt.Println": nop, "fmt.Fprintf": nop, "fmt.Fprintln": nop, "fmt.Fprint": nop,
		"fmt.Sprintf": func(fr *frame, fn *ssa.Function, args []value) value { return sprintf(args) },
		"fmt.Sprint": func(fr *frame, fn *ssa.Function, args []value) value {
			return sprint(fmt.Sprint, args[0].([]value))
		},
		"fmt.Sprintln": func(fr *frame, fn *ssa.Function, args []value) value {
			return sprint(fmt.Sprintln, args[0].([]value))
		},
		"fmt.Errorf": func(fr *frame, fn *ssa.Function, args []value) value {
			s := sprintf(args)
			pk := fr.in.P.prog.ImportedPackage("errors")
			if pk == nil {
				panic(unsupported{"fmt.Errorf"})
			}
			return fr.in.call(fr.g, fr, pk.Func("New"), []value{s})
		},

		// ---- reflect (types only)
		"reflect.TypeOf": func(fr *frame, fn *ssa.Function, args []value) value {
			i := args[0].(iface)
			if i.t == nil {
				return iface{}
			}
			return iface{t: fr.in.P.rtypePtr, v: rtype{i.t}}
		},
		"(*reflect.rtype).Elem": func(fr *frame, fn *ssa.Function, args []value) value {
			t := args[0].(rtype).t
			if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
				return iface{t: fr.in.P.rtypePtr, v: rtype{e.Elem()}}
			}
			panic(panicStr("reflect: Elem of invalid type " + t.String()))
		},
		"(*reflect.rtype).Name": func(fr *frame, fn *ssa.Function, args []value) value {
			return reflectName(args[0].(rtype).t)
		},
		"(*reflect.rtype).String": func(fr *frame, fn *ssa.Function, args []value) value {
			return reflectString(args[0].(rtype).t)
		},
		"(*reflect.rtype).PkgPath": func(fr *frame, fn *ssa.Function, args []value) value {
			if n, ok := types.Unalias(args[0].(rtype).t).(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
			return ""
		},
		"(*reflect.rtype).Kind": func(fr *frame, fn *ssa.Function, args []value) value {
			return int64(reflectKind(args[0].(rtype).t))
		},
		"(*reflect.rtype).Comparable": func(fr *frame, fn *ssa.Function, args []value) value {
			return types.Comparable(args[0].(rtype).t)
		},
		"(*reflect.rtype).NumMethod": func(fr *frame, fn *ssa.Function, args []value) value {
			ms := types.NewMethodSet(args[0].(rtype).t)
			n := 0
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					n++
				}
			}
			return int64(n)
		},
		"reflect.DeepEqual": func(fr *frame, fn *ssa.Function, args []value) value {
			return fr.deepEqual(args[0].(iface), args[1].(iface))
		},

		// ---- strings / bytes / utf8 leaves
		"(*strings.Builder).copyCheck": nop,
		"(*strings.Builder).String": func(fr *frame, fn *ssa.Function, args []value) value {
			s := (*args[0].(*value)).(structv)
			return mkStr(cloneSlice(s[1].([]value)))
		},
		"(*strings.Builder).grow": func(fr *frame, fn *ssa.Function, args []value) value {
			s := (*args[0].(*value)).(structv)
			b := s[1].([]value)
			n := 2*cap(b) + int(fr.concInt(args[1], kInt))
			nb := make([]value, n)
			copy(nb, b)
			for i := len(b); i < n; i++ {
				nb[i] = int64(0)
			}
			s[1] = nb[:len(b)]
			return nil
		},
		"unicode/utf8.AppendRune": func(fr *frame, fn *ssa.Function, args []value) value {
			b := args[0].([]value)
			return append(b[:len(b):len(b)], fr.appendRune(nil, args[1], nk{cInt, 32})...)
		},
		"unicode/utf8.RuneLen": func(fr *frame, fn *ssa.Function, args []value) value {
			return int64(utf8.RuneLen(rune(fr.concInt(args[0], nk{cInt, 32}))))
		},
		"internal/bytealg.MakeNoZero": func(fr *frame, fn *ssa.Function, args []value) value {
			n := fr.concInt(args[0], kInt)
			return fr.fromBytes(make([]byte, n))
		},
		"internal/bytealg.IndexByteString": func(fr *frame, fn *ssa.Function, args []value) value {
			return int64(strings.IndexByte(cstr(args[0]), byte(args[1].(int64))))
		},
		"internal/bytealg.IndexByte": func(fr *frame, fn *ssa.Function, args []value) value {
			return int64(bytes.IndexByte(bytesOf(args[0]), byte(args[1].(int64))))
		},
		"internal/bytealg.CountString": func(fr *frame, fn *ssa.Function, args []value) value {
			return int64(strings.Count(cstr(args[0]), string([]byte{byte(args[1].(int64))})))
		},
		"internal/bytealg.Compare": func(fr *frame, fn *ssa.Function, args []value) value {
			return int64(bytes.Compare(bytesOf(args[0]), bytesOf(args[1])))
		},
		"internal/bytealg.CompareString": strCompare,
		"strings.Compare":                strCompare,
		"cmp.Compare": func(fr *frame, fn *ssa.Function, args []value) value {
			k := kindOf(fn.TypeArgs()[0])
			if k.c == cString {
				return strCompare(fr, fn, args)
			}
			lt := fr.binop(tokLSS, k, k, fn.TypeArgs()[0], args[0], args[1])
			gt := fr.binop(tokLSS, k, k, fn.TypeArgs()[0], args[1], args[0])
			if k.c == cFloat {
				panic(unsupported{"cmp.Compare on floats"})
			}
			in := fr.in
			return lower(in.tt.Ite(in.toTerm(lt, kBool), in.tt.BV(64, ^uint64(0)), in.tt.Ite(in.toTerm(gt, kBool), in.tt.BV(64, 1), in.tt.BV(64, 0))), kInt)
		},
		"strings.Index": func(fr *frame, fn *ssa.Function, args []value) value {
			return int64(strings.Index(cstr(args[0]), cstr(args[1])))
		},
		"strings.LastIndex": func(fr *frame, fn *ssa.Function, args []value) value {
			return int64(strings.LastIndex(cstr(args[0]), cstr(args[1])))
		},
		"strings.IndexByte": func(fr *frame, fn *ssa.Function, args []value) value {
			return int64(strings.IndexByte(cstr(args[0]), byte(args[1].(int64))))
		},
		"strings.ToLower": func(fr *frame, fn *ssa.Function, args []value) value { return strings.ToLower(cstr(args[0])) },
		"strings.ToUpper": func(fr *frame, fn *ssa.Function, args []value) value { return strings.ToUpper(cstr(args[0])) },
		"strings.TrimSpace": func(fr *frame, fn *ssa.Function, args []value) value {
			return strings.TrimSpace(cstr(args[0]))
		},

		// ---- runtime, time
		"runtime.Gosched": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.g.point(&visOp{enabled: func() bool { return true }, what: "Gosched"})
			return nil
		},
		"runtime.GOMAXPROCS": func(fr *frame, fn *ssa.Function, args []value) value { return int64(4) },
		"runtime.NumCPU":     func(fr *frame, fn *ssa.Function, args []value) value { return int64(4) },
		"runtime.KeepAlive":  nop, "runtime.GC": nop, "runtime.SetFinalizer": nop,
		"time.Sleep": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.g.point(&visOp{enabled: func() bool { return true }, what: "Sleep"})
			return nil
		},

		// ---- sync
		"(*sync.Mutex).Lock":   lockM(false),
		"(*sync.Mutex).Unlock": pm(func(g *goroutine, p *value) value { g.unlock(p); return nil }),
		"(*sync.Mutex).TryLock": pm(func(g *goroutine, p *value) value {
			return g.tryLock(p)
		}),
		"(*sync.RWMutex).Lock":     lockM(true),
		"(*sync.RWMutex).Unlock":   pm(func(g *goroutine, p *value) value { g.unlock(p); return nil }),
		"(*sync.RWMutex).RLock":    pm(func(g *goroutine, p *value) value { g.rlock(p); return nil }),
		"(*sync.RWMutex).RUnlock":  pm(func(g *goroutine, p *value) value { g.runlock(p); return nil }),
		"(*sync.RWMutex).TryLock":  pm(func(g *goroutine, p *value) value { return g.tryLock(p) }),
		"(*sync.RWMutex).TryRLock": pm(func(g *goroutine, p *value) value { return g.tryRLock(p) }),
		"(*sync.WaitGroup).Add": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.g.wgAdd(args[0].(*value), fr.concInt(args[1], kInt))
			return nil
		},
		"(*sync.WaitGroup).Done": pm(func(g *goroutine, p *value) value { g.wgAdd(p, -1); return nil }),
		"(*sync.WaitGroup).Wait": pm(func(g *goroutine, p *value) value { g.wgWait(p); return nil }),
		"(*sync.WaitGroup).Go": func(fr *frame, fn *ssa.Function, args []value) value {
			p := args[0].(*value)
			fr.g.wgAdd(p, 1)
			f := args[1]
			fr.in.run.spawn(fr.g, fr, nativeGo(func(g *goroutine) {
				fr.in.call(g, nil, f, nil)
				g.wgAdd(p, -1)
			}), nil)
			return nil
		},
		"(*sync.Once).Do": func(fr *frame, fn *ssa.Function, args []value) value {
			fr.onceDo(args[0].(*value), args[1])
			return nil
		},
		"(*sync.Pool).Get": func(fr *frame, fn *ssa.Function, args []value) value {
			s := (*args[0].(*value)).(structv)
			f := s[len(s)-1]
			switch x := f.(type) {
			case *ssa.Function:
				if x == nil {
					return iface{}
				}
			}
			return fr.in.call(fr.g, fr, f, nil)
		},
		"(*sync.Pool).Put": nop,
		"(*sync/atomic.Value).Load": func(fr *frame, fn *ssa.Function, args []value) value {
			p := args[0].(*value)
			fr.g.atomicPoint(p)
			return (*p).(structv)[0]
		},
		"(*sync/atomic.Value).Store": func(fr *frame, fn *ssa.Function, args []value) value {
			p := args[0].(*value)
			fr.g.atomicPoint(p)
			if args[1].(iface).t == nil {
				panic(panicStr("sync/atomic: store of nil value into Value"))
			}
			(*p).(structv)[0] = args[1]
			return nil
		},
		"(*sync/atomic.Value).Swap": func(fr *frame, fn *ssa.Function, args []value) value {
			p := args[0].(*value)
			fr.g.atomicPoint(p)
			old := (*p).(structv)[0]
			(*p).(structv)[0] = args[1]
			return old
		},
		"(*sync/atomic.Value).CompareAndSwap": func(fr *frame, fn *ssa.Function, args []value) value {
			p := args[0].(*value)
			fr.g.atomicPoint(p)
			if fr.in.run.branchv(fr.in.eqv(types.NewInterfaceType(nil, nil), (*p).(structv)[0], args[1])) {
				(*p).(structv)[0] = args[2]
				return true
			}
			return false
		},
		"math.Abs": func(fr *frame, fn *ssa.Function, args []value) value {
			if f, ok := args[0].(float64); ok {
				return math.Abs(f)
			}
			t := args[0].(*Term)
			if fr.in.real {
				tt := fr.in.tt
				return tt.Ite(tt.bin(ORLt, t, fr.in.realConst(0)), tt.un(ORNeg, t), t)
			}
			return fr.in.tt.un(OFpAbs, t)
		},
		"math.Sqrt": func(fr *frame, fn *ssa.Function, args []value) value {
			if f, ok := args[0].(float64); ok {
				return math.Sqrt(f)
			}
			if fr.in.real {
				panic(unsupported{"math.Sqrt in exact arithmetic"})
			}
			return fr.in.tt.un(OFpSqrt, args[0].(*Term))
		},
		"math.IsNaN": func(fr *frame, fn *ssa.Function, args []value) value {
			if f, ok := args[0].(float64); ok {
				return f != f
			}
			if fr.in.real {
				return false
			}
			return fr.in.tt.un(OFpIsNaN, args[0].(*Term))
		},
		"math.IsInf": func(fr *frame, fn *ssa.Function, args []value) value {
			s := int(fr.concInt(args[1], kInt))
			if f, ok := args[0].(float64); ok {
				return math.IsInf(f, s)
			}
			if fr.in.real {
				return false
			}
			tt := fr.in.tt
			t := args[0].(*Term)
			switch {
			case s > 0:
				return lower(tt.Eq(t, tt.Const(t.sort, math.Inf(1))), kBool)
			case s < 0:
				return lower(tt.Eq(t, tt.Const(t.sort, math.Inf(-1))), kBool)
			}
			return tt.un(OFpIsInf, t)
		},
		"math.Max": fminmax(false),
		"math.Min": fminmax(true),
	}
}

func fminmax(isMin bool) intrinsic {
	return func(fr *frame, fn *ssa.Function, args []value) value {
		x, ok1 := args[0].(float64)
		y, ok2 := args[1].(float64)
		if ok1 && ok2 {
			if isMin {
				return math.Min(x, y)
			}
			return math.Max(x, y)
		}
		in := fr.in
		k := nk{cFloat, 64}
		a, b := in.toTerm(args[0], k), in.toTerm(args[1], k)
		tt := in.tt
		if in.real {
			lt := tt.bin(ORLt, a, b)
			if isMin {
				return tt.Ite(lt, a, b)
			}
			return tt.Ite(lt, b, a)
		}
		// NaN if either is NaN (and no infinity decides), zeros ordered by sign
		lt := tt.bin(OFpLt, a, b)
		if !isMin {
			lt = tt.bin(OFpLt, b, a)
		}
		nan := tt.Or(tt.un(OFpIsNaN, a), tt.un(OFpIsNaN, b))
		inf := math.Inf(1)
		if isMin {
			inf = math.Inf(-1)
		}
		ic := tt.Const(fpSort(64), inf)
		zer := tt.And(tt.bin(OFpEq, a, tt.Const(fpSort(64), 0.0)), tt.bin(OFpEq, b, tt.Const(fpSort(64), 0.0)))
		neg0 := tt.Const(fpSort(64), math.Copysign(0, -1))
		pos0 := tt.Const(fpSort(64), 0.0)
		var z *Term
		if isMin {
			z = tt.Ite(tt.Or(tt.Eq(a, neg0), tt.Eq(b, neg0)), neg0, pos0)
		} else {
			z = tt.Ite(tt.Or(tt.Eq(a, pos0), tt.Eq(b, pos0)), pos0, neg0)
		}
		r := tt.Ite(tt.Or(tt.Eq(a, ic), tt.Eq(b, ic)), ic,
			tt.Ite(nan, tt.Const(fpSort(64), math.NaN()), tt.Ite(zer, z, tt.Ite(lt, a, b))))
		return lower(r, k)
	}
}

func strCompare(fr *frame, fn *ssa.Function, args []value) value {
	in := fr.in
	lt := in.strLess(args[0], args[1], false)
	eq := in.strEq(args[0], args[1])
	r := in.tt.Ite(in.toTerm(lt, kBool), in.tt.BV(64, ^uint64(0)), in.tt.Ite(in.toTerm(eq, kBool), in.tt.BV(64, 0), in.tt.BV(64, 1)))
	return lower(r, kInt)
}

// nativeGo lets an intrinsic run engine code as a goroutine.
func nativeGo(f func(g *goroutine)) nativeFn {
	return func(fr *frame, args []value) value { f(fr.g); return nil }
}

var mathFuncs = map[string]any{
	"Float64bits": math.Float64bits, "Float64frombits": math.Float64frombits,
	"Float32bits": math.Float32bits, "Float32frombits": math.Float32frombits,
	"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Pow": math.Pow, "Log": math.Log, "Log2": math.Log2,
	"Exp": math.Exp, "Mod": math.Mod, "Hypot": math.Hypot, "Inf": math.Inf, "NaN": math.NaN, "Signbit": math.Signbit,
	"Copysign": math.Copysign, "Round": math.Round, "Cbrt": math.Cbrt, "FMA": math.FMA,
}

func mathIntrinsic(name string, f any) intrinsic {
	rv := reflect.ValueOf(f)
	return func(fr *frame, fn *ssa.Function, args []value) value {
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			pt := rv.Type().In(i)
			switch x := a.(type) {
			case int64:
				in[i] = reflect.ValueOf(x).Convert(pt)
			case float64:
				in[i] = reflect.ValueOf(x).Convert(pt)
			default:
				panic(unsupported{"symbolic argument of " + name})
			}
		}
		out := rv.Call(in)[0]
		switch out.Kind() {
		case reflect.Bool:
			return out.Bool()
		case reflect.Float64, reflect.Float32:
			return out.Float()
		case reflect.Uint32, reflect.Uint64:
			return int64(out.Uint())
		}
		return out.Int()
	}
}

func atomicIntrinsic(n string) intrinsic {
	pre := func(p string) bool { return strings.HasPrefix(n, p) }
	kind := func(fn *ssa.Function) nk {
		return kindOf(fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem())
	}
	check := func(fr *frame, a value) *value {
		p := a.(*value)
		if p == nil {
			fr.throw("invalid memory address or nil pointer dereference")
		}
		fr.g.atomicPoint(p)
		return p
	}
	switch {
	case pre("Load"):
		return func(fr *frame, fn *ssa.Function, args []value) value { return *check(fr, args[0]) }
	case pre("Store"):
		return func(fr *frame, fn *ssa.Function, args []value) value {
			*check(fr, args[0]) = args[1]
			return nil
		}
	case pre("Swap"):
		return func(fr *frame, fn *ssa.Function, args []value) value {
			p := check(fr, args[0])
			o := *p
			*p = args[1]
			return o
		}
	case pre("Add"):
		return func(fr *frame, fn *ssa.Function, args []value) value {
			p := check(fr, args[0])
			k := kind(fn)
			*p = fr.binop(tokADD, k, k, fn.Signature.Results().At(0).Type(), *p, args[1])
			return *p
		}
	case pre("CompareAndSwap"):
		return func(fr *frame, fn *ssa.Function, args []value) value {
			p := check(fr, args[0])
			et := fn.Signature.Params().At(1).Type()
			if fr.in.run.branchv(fr.in.eqv(et, *p, args[1])) {
				*p = args[2]
				return true
			}
			return false
		}
	}
	return nil
}

func (fr *frame) callerPos() string {
	c := fr.caller
	if c == nil {
		return "?"
	}
	return fr.in.posOf(c.pos)
}

func (fr *frame) symVar(name string, t types.Type) value {
	r := fr.in.run
	k := kindOf(t)
	s := fr.in.sortOf(k)
	v := fr.in.tt.Var(fmt.Sprintf("%s.%d.%d%d", name, r.nvar, s.K, s.W), s)
	r.nvar++
	r.inputs = append(r.inputs, inputRec{Kind: "val", Typ: t.Underlying().String(), term: v, k: k})
	return v
}

func (fr *frame) obsOf(a value) obsVal {
	i, ok := a.(iface)
	if !ok || i.t == nil {
		return obsVal{s: "nil"}
	}
	k := kindOf(i.t)
	switch x := i.v.(type) {
	case *Term:
		return obsVal{t: x, k: k}
	case int64, bool, float64, string:
		return obsVal{s: showVal(x, k)}
	case *symStr:
		return obsVal{s: "<symbolic string>"}
	}
	return obsVal{s: fmt.Sprintf("<%T>", i.v)}
}

// showVal prints a concrete scalar the way the native harness does.
func showVal(v value, k nk) string {
	switch x := v.(type) {
	case int64:
		if k.c == cUint {
			return fmt.Sprint(uint64(x))
		}
		return fmt.Sprint(x)
	case float64:
		if x != x {
			return "NaN"
		}
		if x == 0 {
			return "0"
		}
		if k.w == 32 {
			return fmt.Sprint(float32(x))
		}
		return fmt.Sprint(x)
	}
	return fmt.Sprint(v)
}

func (fr *frame) deepEqual(a, b iface) value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if !types.Identical(a.t, b.t) {
		return false
	}
	return fr.deepEq(a.t, a.v, b.v, 0)
}

func (fr *frame) deepEq(t types.Type, a, b value, d int) value {
	if d > 50 {
		panic(unsupported{"reflect.DeepEqual depth"})
	}
	in := fr.in
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.([]value), b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r value = true
		for i := range x {
			r = in.andv(r, fr.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Array:
		x, y := a.(arrayv), b.(arrayv)
		var r value = true
		for i := range x {
			r = in.andv(r, fr.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Struct:
		x, y := a.(structv), b.(structv)
		var r value = true
		for i := range x {
			r = in.andv(r, fr.deepEq(u.Field(i).Type(), x[i], y[i], d+1))
		}
		return r
	case *types.Pointer:
		x, y := a.(*value), b.(*value)
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return fr.deepEq(u.Elem(), *x, *y, d+1)
	case *types.Interface:
		return fr.deepEqual(a.(iface), b.(iface))
	case *types.Basic:
		return in.eqv(t, a, b)
	}
	panic(unsupported{"reflect.DeepEqual of " + t.String()})
}

func reflectName(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		s := x.Obj().Name()
		if ta := x.TypeArgs(); ta != nil && ta.Len() > 0 {
			var as []string
			for i := 0; i < ta.Len(); i++ {
				as = append(as, types.TypeString(types.Unalias(basicName(ta.At(i))), nil))
			}
			s += "[" + strings.Join(as, ",") + "]"
		}
		return s
	case *types.Basic:
		return basicName(x).String()
	}
	return ""
}

func basicName(t types.Type) types.Type {
	if b, ok := types.Unalias(t).(*types.Basic); ok {
		return types.Typ[b.Kind()] // byte -> uint8, rune -> int32
	}
	return t
}

func reflectString(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + reflectName(n)
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return "*" + reflectString(p.Elem())
	}
	return types.TypeString(basicName(t), func(p *types.Package) string { return p.Name() })
}

func reflectKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8,
			types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint,
			types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64,
			types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32, types.Float64: reflect.Float64,
			types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String,
			types.UnsafePointer: reflect.UnsafePointer}
		return m[u.Kind()]
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}
