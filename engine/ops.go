package main

import (
	"fmt"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- strings ---------------------------------------------------------------

func strBytes(v value) []value {
	switch s := v.(type) {
	case string:
		r := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = int64(s[i])
		}
		return r
	case *symStr:
		return s.b
	}
	panic(unsupported{fmt.Sprintf("bytes of %T", v)})
}

func mkStr(b []value) value {
	buf := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(int64)
		if !ok {
			return &symStr{append([]value(nil), b...)}
		}
		buf[i] = byte(c)
	}
	return string(buf)
}

func concatStr(a, b value) value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	return mkStr(append(append([]value(nil), strBytes(a)...), strBytes(b)...))
}

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	}
	panic(unsupported{fmt.Sprintf("len of %T", v)})
}

var kByte = nk{cUint, 8}
var kBool = nk{cBool, 1}
var kInt = nk{cInt, 64}

func (in *Interp) strEq(a, b value) value {
	x, y := strBytes(a), strBytes(b)
	if len(x) != len(y) {
		return false
	}
	r := in.tt.tTrue
	for i := range x {
		r = in.tt.And(r, in.tt.Eq(in.toTerm(x[i], kByte), in.toTerm(y[i], kByte)))
	}
	return lower(r, kBool)
}

// strLess is lexicographic byte comparison; orEq for <=.
func (in *Interp) strLess(a, b value, orEq bool) value {
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	var r *Term
	switch {
	case len(x) < len(y):
		r = in.tt.tTrue
	case len(x) > len(y):
		r = in.tt.tFalse
	default:
		r = in.tt.Bool(orEq)
	}
	for i := n - 1; i >= 0; i-- {
		p, q := in.toTerm(x[i], kByte), in.toTerm(y[i], kByte)
		r = in.tt.Or(in.tt.bin(OBvUlt, p, q), in.tt.And(in.tt.Eq(p, q), r))
	}
	return lower(r, kBool)
}

// appendRune is utf8.AppendRune on a possibly symbolic rune (integer of kind k).
func (fr *frame) appendRune(out []value, v value, k nk) []value {
	in := fr.in
	if c, ok := v.(int64); ok {
		r := rune(c)
		if int64(r) != c {
			r = utf8.RuneError
		}
		for _, b := range []byte(string(r)) {
			out = append(out, int64(b))
		}
		return out
	}
	tt := in.tt
	t := v.(*Term)
	if k.w < 32 {
		if k.c == cInt {
			t = tt.Sext(t, 32)
		} else {
			t = tt.Zext(t, 32)
		}
	} else if k.w > 32 {
		fits := tt.Eq(tt.Sext(tt.Extract(t, 31, 0), k.w), t)
		if !in.run.branch(fits) {
			return fr.appendRune(out, int64(utf8.RuneError), kInt)
		}
		t = tt.Extract(t, 31, 0)
	}
	c := func(x uint64) *Term { return tt.BV(32, x) }
	byteOf := func(sh uint64, m, or uint64) value {
		x := tt.bin(OBvLshr, t, c(sh))
		x = tt.bin(OBvOr, tt.bin(OBvAnd, x, c(m)), c(or))
		return lower(tt.Extract(x, 7, 0), kByte)
	}
	lt := func(x uint64) bool { return in.run.branch(tt.bin(OBvUlt, t, c(x))) }
	switch {
	case lt(0x80):
		return append(out, lower(tt.Extract(t, 7, 0), kByte))
	case lt(0x800):
		return append(out, byteOf(6, 0x1f, 0xc0), byteOf(0, 0x3f, 0x80))
	case in.run.branch(tt.Or(tt.bin(OBvUlt, c(0x10ffff), t), tt.And(tt.bin(OBvUle, c(0xd800), t), tt.bin(OBvUle, t, c(0xdfff))))):
		return fr.appendRune(out, int64(utf8.RuneError), kInt)
	case lt(0x10000):
		return append(out, byteOf(12, 0xf, 0xe0), byteOf(6, 0x3f, 0x80), byteOf(0, 0x3f, 0x80))
	}
	return append(out, byteOf(18, 0x7, 0xf0), byteOf(12, 0x3f, 0x80), byteOf(6, 0x3f, 0x80), byteOf(0, 0x3f, 0x80))
}

// ---- indexing --------------------------------------------------------------

func (fr *frame) concInt(v value, k nk) int64 {
	if i, ok := v.(int64); ok {
		return i
	}
	if t, ok := v.(*Term); ok {
		return fr.in.run.concretize(t, k)
	}
	panic(unsupported{fmt.Sprintf("integer expected, got %T", v)})
}

// idx checks 0 <= v < n and returns the concrete index.
func (fr *frame) idx(v value, k nk, n int) int {
	if i, ok := v.(int64); ok {
		if i < 0 || i >= int64(n) {
			fr.throw(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	in := fr.in
	t := v.(*Term)
	var inb *Term
	if n == 0 {
		fr.throw("index out of range [?] with length 0")
	}
	if k.w < 64 && uint64(n) > mask(k.w) {
		if k.c == cInt {
			inb = in.tt.Not(in.tt.bin(OBvSlt, t, in.tt.BV(k.w, 0)))
		} else {
			inb = in.tt.tTrue
		}
	} else {
		inb = in.tt.bin(OBvUlt, t, in.tt.BV(k.w, uint64(n)))
	}
	if !in.run.branchv(lower(inb, kBool)) {
		fr.throw(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return int(in.run.concretize(t, k))
}

func (fr *frame) indexAddr(ci *cinstr) value {
	x := fr.get(&ci.o[0])
	iv := fr.get(&ci.o[1])
	switch s := x.(type) {
	case []value:
		i := fr.idx(iv, ci.k, len(s))
		return &s[i]
	case *value:
		if s == nil {
			fr.throw("invalid memory address or nil pointer dereference")
		}
		a := (*s).(arrayv)
		i := fr.idx(iv, ci.k, len(a))
		return &a[i]
	}
	panic(unsupported{fmt.Sprintf("index address of %T", x)})
}

func (fr *frame) index(x *ssa.Index, ci *cinstr) value {
	v := fr.get(&ci.o[0])
	iv := fr.get(&ci.o[1])
	switch s := v.(type) {
	case arrayv:
		return copyVal(s[fr.idx(iv, ci.k, len(s))])
	case string:
		return int64(s[fr.idx(iv, ci.k, len(s))])
	case *symStr:
		return s.b[fr.idx(iv, ci.k, len(s.b))]
	}
	panic(unsupported{fmt.Sprintf("index of %T", v)})
}

func (fr *frame) makeSlice(x *ssa.MakeSlice, ci *cinstr) value {
	n := fr.concInt(fr.get(&ci.o[0]), ci.k)
	c := fr.concInt(fr.get(&ci.o[1]), ci.k2)
	if n < 0 || n > 1<<24 {
		fr.throw("makeslice: len out of range")
	}
	if c < n || c > 1<<24 {
		fr.throw("makeslice: cap out of range")
	}
	s := make([]value, c)
	et := x.Type().Underlying().(*types.Slice).Elem()
	for i := range s {
		s[i] = zero(et)
	}
	return s[:n]
}

func (fr *frame) slice(x *ssa.Slice, ci *cinstr) value {
	v := fr.get(&ci.o[0])
	var lo, hi, max int
	var n, cp int
	var s []value
	switch y := v.(type) {
	case []value:
		s, n, cp = y, len(y), cap(y)
	case *value:
		if y == nil {
			fr.throw("invalid memory address or nil pointer dereference")
		}
		a := (*y).(arrayv)
		s, n, cp = []value(a), len(a), len(a)
	case string:
		n, cp = len(y), len(y)
	case *symStr:
		n, cp = len(y.b), len(y.b)
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", v)})
	}
	hi, max = n, cp
	bound := func(e ssa.Value, o *opnd, def, lim int, what string) int {
		if e == nil {
			return def
		}
		k := kindOf(e.Type())
		iv := fr.get(o)
		if t, ok := iv.(*Term); ok {
			ok := fr.in.tt.bin(OBvUle, t, fr.in.tt.BV(k.w, uint64(lim)))
			if !fr.in.run.branchv(lower(ok, kBool)) {
				fr.throw("slice bounds out of range [" + what + "]")
			}
			return int(fr.in.run.concretize(t, k))
		}
		i := iv.(int64)
		if i < 0 || i > int64(lim) {
			fr.throw(fmt.Sprintf("slice bounds out of range [%s %d] with capacity %d", what, i, lim))
		}
		return int(i)
	}
	if x.Max != nil {
		max = bound(x.Max, &ci.o[3], cp, cp, "::")
	}
	hi = bound(x.High, &ci.o[2], hi, max, ":")
	lo = bound(x.Low, &ci.o[1], 0, hi, "")
	switch y := v.(type) {
	case string:
		return y[lo:hi]
	case *symStr:
		return mkStr(y.b[lo:hi])
	}
	if s == nil {
		return s
	}
	return s[lo:hi:max]
}

// ---- maps ------------------------------------------------------------------

func (fr *frame) mapFind(m *mapv, kt types.Type, key value) int {
	if m == nil {
		return -1
	}
	if i, ok := key.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		fr.throw("hash of unhashable type")
	}
	h, ok := hashKey(key)
	if ok && !m.sym {
		if i, ok := m.idx[h]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if m.alive[i] && fr.in.run.branchv(fr.in.eqv(kt, m.keys[i], key)) {
			return i
		}
	}
	return -1
}

func (fr *frame) mapSet(m *mapv, kt types.Type, key, val value) {
	i := fr.mapFind(m, kt, key)
	if i >= 0 {
		m.vals[i] = val
		return
	}
	m.keys = append(m.keys, key)
	m.vals = append(m.vals, val)
	m.alive = append(m.alive, true)
	m.n++
	if h, ok := hashKey(key); ok {
		m.idx[h] = len(m.keys) - 1
	} else {
		m.sym = true
	}
}

func (fr *frame) mapDelete(m *mapv, kt types.Type, key value) {
	i := fr.mapFind(m, kt, key)
	if i < 0 {
		return
	}
	m.alive[i] = false
	m.n--
	if h, ok := hashKey(m.keys[i]); ok {
		delete(m.idx, h)
	}
}

func (fr *frame) lookup(x *ssa.Lookup, ci *cinstr) value {
	v := fr.get(&ci.o[0])
	key := fr.get(&ci.o[1])
	switch m := v.(type) {
	case *mapv:
		mt := x.X.Type().Underlying().(*types.Map)
		if fr.in.run.raceOn && m != nil {
			fr.raceMap(m, false)
		}
		i := fr.mapFind(m, mt.Key(), key)
		var res value
		if i >= 0 {
			res = copyVal(m.vals[i])
		} else {
			res = zero(mt.Elem())
		}
		if x.CommaOk {
			return tuple{res, i >= 0}
		}
		return res
	case string:
		return int64(m[fr.idx(key, ci.k, len(m))])
	case *symStr:
		return m.b[fr.idx(key, ci.k, len(m.b))]
	}
	panic(unsupported{fmt.Sprintf("lookup in %T", v)})
}

func (fr *frame) rangeIter(v value) value {
	switch x := v.(type) {
	case *mapv:
		if x != nil && x.n > 1 {
			fr.in.run.note("map iteration explored in insertion order only")
		}
		if fr.in.run.raceOn && x != nil {
			fr.raceMap(x, false)
		}
		return &mapIter{m: x}
	case string:
		return &strIter{s: x}
	}
	panic(unsupported{fmt.Sprintf("range over %T", v)})
}

func (fr *frame) next(x *ssa.Next, it value) value {
	switch i := it.(type) {
	case *mapIter:
		if i.m != nil {
			for i.i < len(i.m.keys) {
				k := i.i
				i.i++
				if i.m.alive[k] {
					return tuple{true, i.m.keys[k], copyVal(i.m.vals[k])}
				}
			}
		}
		return tuple{false, nil, nil}
	case *strIter:
		if i.i >= len(i.s) {
			return tuple{false, nil, nil}
		}
		r, n := utf8.DecodeRuneInString(i.s[i.i:])
		p := i.i
		i.i += n
		return tuple{true, int64(p), int64(r)}
	}
	panic(unsupported{"next"})
}

// ---- builtins --------------------------------------------------------------

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []value, sargs []ssa.Value) value {
	r := in.run
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case []value:
			return int64(len(x))
		case string, *symStr:
			return int64(strLen(x))
		case arrayv:
			return int64(len(x))
		case *value:
			return int64(len((*x).(arrayv)))
		case *mapv:
			if x == nil {
				return int64(0)
			}
			if r.raceOn {
				fr.raceMap(x, false)
			}
			return int64(x.n)
		case *chanv:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case arrayv:
			return int64(len(x))
		case *value:
			return int64(len((*x).(arrayv)))
		case *chanv:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
	case "append":
		s := args[0].([]value)
		if len(args) == 1 {
			return s
		}
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
		default:
			add = strBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		st := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice)
		n := len(s)
		need := n + len(add)
		if r.raceOn {
			for i := range add {
				fr.raceRead(&add[i])
			}
		}
		if need <= cap(s) {
			s2 := s[:need]
			// the source may overlap the destination
			tmp := make([]value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			for i := range tmp {
				if r.raceOn {
					fr.raceWrite(&s2[n+i])
				}
				assign(&s2[n+i], tmp[i])
			}
			return s2
		}
		c := growCap(st.Elem(), n, cap(s), len(add))
		if c < need {
			c = need
		}
		ns := make([]value, c)
		for i := range s {
			if r.raceOn {
				fr.raceRead(&s[i])
			}
			ns[i] = copyVal(s[i])
		}
		for i := range add {
			ns[n+i] = copyVal(add[i])
		}
		for i := need; i < c; i++ {
			ns[i] = zero(st.Elem())
		}
		return ns[:need]
	case "copy":
		d := args[0].([]value)
		var s []value
		switch y := args[1].(type) {
		case []value:
			s = y
		default:
			s = strBytes(y)
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			if r.raceOn {
				fr.raceRead(&s[i])
			}
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			if r.raceOn {
				fr.raceWrite(&d[i])
			}
			assign(&d[i], tmp[i])
		}
		return int64(n)
	case "close":
		ch, _ := args[0].(*chanv)
		fr.g.closeChan(ch)
		return nil
	case "delete":
		m, _ := args[0].(*mapv)
		if m == nil {
			return nil
		}
		if r.raceOn {
			fr.raceMap(m, true)
		}
		kt := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Map).Key()
		fr.mapDelete(m, kt, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapv:
			if x != nil {
				if r.raceOn {
					fr.raceMap(x, true)
				}
				*x = mapv{idx: map[any]int{}}
			}
		case []value:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				if r.raceOn {
					fr.raceWrite(&x[i])
				}
				assign(&x[i], zero(et))
			}
		}
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		return doRecover(fr.recoverFrame())
	case "print", "println":
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Results().At(0).Type()
		k := kindOf(t)
		res := args[0]
		for _, a := range args[1:] {
			res = in.minmax(fr, b.Name() == "min", k, t, res, a)
		}
		return res
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "ssa:wrapnilchk":
		if p, _ := args[0].(*value); p == nil {
			fr.throw("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s := args[0].([]value)
		if cap(s) == 0 {
			return (*value)(nil)
		}
		return &s[:1][0]
	}
	panic(unsupported{"builtin " + b.Name()})
}

// recoverFrame: recover is called by the frame itself.
func (fr *frame) recoverFrame() *frame { return fr }

func (in *Interp) minmax(fr *frame, isMin bool, k nk, t types.Type, a, b value) value {
	_, ta := a.(*Term)
	_, tb := b.(*Term)
	if !ta && !tb {
		switch x := a.(type) {
		case int64:
			y := b.(int64)
			less := x < y
			if k.c == cUint {
				less = uint64(x) < uint64(y)
			}
			if less == isMin {
				return x
			}
			return y
		case float64:
			y := b.(float64)
			if isMin {
				return min(x, y)
			}
			return max(x, y)
		case string:
			y := b.(string)
			if isMin {
				return min(x, y)
			}
			return max(x, y)
		}
	}
	if k.c == cFloat {
		panic(unsupported{"symbolic float min/max"})
	}
	x, y := in.toTerm(a, k), in.toTerm(b, k)
	op := OBvUlt
	if k.c == cInt {
		op = OBvSlt
	}
	lt := in.tt.bin(op, x, y)
	if !isMin {
		lt = in.tt.bin(op, y, x)
	}
	return lower(in.tt.Ite(lt, x, y), k)
}
