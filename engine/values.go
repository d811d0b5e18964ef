package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is one of: bool, int64 (every integer kind, normalised to its width), float64, complex128,
// string, *symStr, *Term, *value (pointer), []value (slice), structv, arrayv, iface, *closure,
// *ssa.Function, *ssa.Builtin, *mapv, *chanv, tuple, rtype, *mapIter, *strIter, nil.
type value = any

type structv []value
type arrayv []value
type tuple []value

type iface struct {
	t types.Type // nil for a nil interface
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type rtype struct{ t types.Type }

type symStr struct{ b []value } // bytes: int64 or *Term of BV8

type mapv struct {
	keys, vals []value
	alive      []bool
	n          int
	idx        map[any]int // concrete keys only
	sym        bool        // some key is not indexable
}

type mapIter struct {
	m *mapv
	i int
}

type strIter struct {
	s string
	i int
}

// cls is the class of a basic type.
type cls uint8

const (
	cOther cls = iota
	cBool
	cInt
	cUint
	cFloat
	cString
	cComplex
	cUnsafe
)

type nk struct {
	c cls
	w int
}

func kindOf(t types.Type) nk {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nk{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return nk{cBool, 1}
	case types.Int, types.Int64, types.UntypedInt:
		return nk{cInt, 64}
	case types.Int8:
		return nk{cInt, 8}
	case types.Int16:
		return nk{cInt, 16}
	case types.Int32, types.UntypedRune:
		return nk{cInt, 32}
	case types.Uint, types.Uint64, types.Uintptr:
		return nk{cUint, 64}
	case types.Uint8:
		return nk{cUint, 8}
	case types.Uint16:
		return nk{cUint, 16}
	case types.Uint32:
		return nk{cUint, 32}
	case types.Float32:
		return nk{cFloat, 32}
	case types.Float64, types.UntypedFloat:
		return nk{cFloat, 64}
	case types.Complex64:
		return nk{cComplex, 64}
	case types.Complex128, types.UntypedComplex:
		return nk{cComplex, 128}
	case types.String, types.UntypedString:
		return nk{cString, 0}
	case types.UnsafePointer:
		return nk{cUnsafe, 0}
	}
	return nk{}
}

func norm(v int64, k nk) int64 {
	if k.w >= 64 {
		return v
	}
	if k.c == cInt {
		return sext(uint64(v), k.w)
	}
	return int64(uint64(v) & mask(k.w))
}

func (in *Interp) sortOf(k nk) Sort {
	switch k.c {
	case cBool:
		return boolSort
	case cInt, cUint:
		return bvSort(k.w)
	case cFloat:
		if in.real {
			return realSort
		}
		return fpSort(k.w)
	}
	panic(unsupported{fmt.Sprintf("symbolic value of kind %v", k)})
}

// toTerm converts a scalar of kind k to a term.
func (in *Interp) toTerm(v value, k nk) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return in.tt.Bool(x)
	case int64:
		return in.tt.BV(k.w, uint64(x))
	case float64:
		if in.real {
			if x != x || math.IsInf(x, 0) {
				panic(unsupported{"non-finite float in exact-arithmetic mode"})
			}
			return in.tt.Const(realSort, new(big.Rat).SetFloat64(x))
		}
		return in.tt.Const(fpSort(k.w), x)
	}
	panic(unsupported{fmt.Sprintf("toTerm of %T", v)})
}

// lower turns constant terms back into Go values.
func lower(t *Term, k nk) value {
	if t.op != OConst {
		return t
	}
	switch x := t.cv.(type) {
	case bool:
		return x
	case uint64:
		return norm(int64(x), k)
	case float64:
		return x
	}
	return t
}

func (m *mapv) clone(f func(value) value) *mapv {
	r := &mapv{n: m.n, sym: m.sym, idx: map[any]int{}}
	for i := range m.keys {
		r.keys = append(r.keys, f(m.keys[i]))
		r.vals = append(r.vals, f(m.vals[i]))
		r.alive = append(r.alive, m.alive[i])
		if m.alive[i] {
			if k, ok := hashKey(r.keys[i]); ok {
				r.idx[k] = i
			}
		}
	}
	return r
}

func hashKey(k value) (any, bool) {
	switch x := k.(type) {
	case bool, int64, string, float64:
		return x, true
	case *value:
		return x, true
	case structv:
		var sb strings.Builder
		for _, f := range x {
			h, ok := hashKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", h, h)
		}
		return "struct:" + sb.String(), true
	case arrayv:
		return hashKey(structv(x))
	case iface:
		if x.t == nil {
			return "nil-iface", true
		}
		if r, ok := x.v.(rtype); ok {
			return "rtype:" + types.TypeString(r.t, nil), true
		}
		h, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		if p, ok := h.(*value); ok {
			return p, true
		}
		return fmt.Sprintf("iface:%s:%v", types.TypeString(x.t, nil), h), true
	}
	return nil, false
}

// zero returns the zero value of t.
func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			panic("untyped nil has no zero value")
		}
		k := kindOf(t)
		switch k.c {
		case cBool:
			return false
		case cInt, cUint:
			return int64(0)
		case cFloat:
			return float64(0)
		case cString:
			return ""
		case cComplex:
			return complex128(0)
		case cUnsafe:
			return (*value)(nil)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		n := int(t.Len())
		a := make(arrayv, n)
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structv, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*chanv)(nil)
	case *types.Map:
		return (*mapv)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic(unsupported{"uninstantiated type parameter"})
	}
	panic(unsupported{fmt.Sprintf("zero of %T %s", t, t)})
}

// copyVal copies aggregates (values have value semantics).
func copyVal(v value) value {
	switch x := v.(type) {
	case structv:
		r := make(structv, len(x))
		for i, f := range x {
			r[i] = copyVal(f)
		}
		return r
	case arrayv:
		r := make(arrayv, len(x))
		for i, f := range x {
			r[i] = copyVal(f)
		}
		return r
	}
	return v
}

// assign stores v into *p keeping the addresses of p's components.
func assign(p *value, v value) {
	switch x := v.(type) {
	case structv:
		d, ok := (*p).(structv)
		if !ok || len(d) != len(x) {
			*p = copyVal(v)
			return
		}
		for i := range x {
			assign(&d[i], x[i])
		}
	case arrayv:
		d, ok := (*p).(arrayv)
		if !ok || len(d) != len(x) {
			*p = copyVal(v)
			return
		}
		for i := range x {
			assign(&d[i], x[i])
		}
	default:
		*p = v
	}
}

// growCap returns the capacity append gives, computed by the Go runtime itself.
func growCap(elem types.Type, oldLen, oldCap, add int) int {
	sz := stdSizes.Sizeof(elem)
	hasPtr := hasPointers(elem)
	switch {
	case hasPtr && sz == 8:
		return cap(append(make([]*int, oldLen, oldCap), make([]*int, add)...))
	case hasPtr && sz == 16:
		return cap(append(make([]string, oldLen, oldCap), make([]string, add)...))
	case hasPtr && sz == 24:
		return cap(append(make([][]int, oldLen, oldCap), make([][]int, add)...))
	case sz == 1:
		return cap(append(make([]byte, oldLen, oldCap), make([]byte, add)...))
	case sz == 2:
		return cap(append(make([]int16, oldLen, oldCap), make([]int16, add)...))
	case sz == 4:
		return cap(append(make([]int32, oldLen, oldCap), make([]int32, add)...))
	case sz == 8:
		return cap(append(make([]int64, oldLen, oldCap), make([]int64, add)...))
	case sz == 16:
		return cap(append(make([][2]int64, oldLen, oldCap), make([][2]int64, add)...))
	case sz == 24:
		return cap(append(make([][3]int64, oldLen, oldCap), make([][3]int64, add)...))
	}
	n := oldLen + add
	if c := 2 * oldCap; c > n {
		n = c
	}
	return n
}

var stdSizes = types.SizesFor("gc", "amd64")

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// ---- path-control panics (never visible to interpreted code) ---------------

type unsupported struct{ msg string }
type pathEnd struct{ why string } // assumption failed, killed, ...
type targetPanic struct{ v value }
type violationStop struct{}
