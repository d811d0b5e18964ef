package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// ---- sorts -----------------------------------------------------------------

type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SFP
	SReal
)

type Sort struct {
	K SortKind
	W uint16 // BV width, or 32/64 for FP
}

var boolSort = Sort{SBool, 0}
var realSort = Sort{SReal, 0}

func bvSort(w int) Sort { return Sort{SBV, uint16(w)} }
func fpSort(w int) Sort { return Sort{SFP, uint16(w)} }

func (s Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case SFP:
		if s.W == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	case SReal:
		return "Real"
	}
	return "?"
}

// ---- operators -------------------------------------------------------------

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OBvAdd
	OBvSub
	OBvMul
	OBvUdiv
	OBvSdiv
	OBvUrem
	OBvSrem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OBvNeg
	OBvShl
	OBvLshr
	OBvAshr
	OBvUlt
	OBvUle
	OBvSlt
	OBvSle
	OExtract // p0 = hi, p1 = lo
	OZext    // p0 = extra bits
	OSext
	OConcat
	OFpAdd
	OFpSub
	OFpMul
	OFpDiv
	OFpNeg
	OFpAbs
	OFpEq
	OFpLt
	OFpLe
	OFpIsNaN
	OFpIsInf
	OFpFromS // signed bv -> fp (width in sort)
	OFpFromU
	OFpFromFp
	OFpToS // fp -> signed bv (RTZ)
	OFpToU
	OFpSqrt
	ORAdd
	ORSub
	ORMul
	ORDiv
	ORNeg
	ORLt
	ORLe
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OBvAdd: "bvadd", OBvSub: "bvsub", OBvMul: "bvmul", OBvUdiv: "bvudiv", OBvSdiv: "bvsdiv",
	OBvUrem: "bvurem", OBvSrem: "bvsrem", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor",
	OBvNot: "bvnot", OBvNeg: "bvneg", OBvShl: "bvshl", OBvLshr: "bvlshr", OBvAshr: "bvashr",
	OBvUlt: "bvult", OBvUle: "bvule", OBvSlt: "bvslt", OBvSle: "bvsle", OConcat: "concat",
	OFpAdd: "fp.add RNE", OFpSub: "fp.sub RNE", OFpMul: "fp.mul RNE", OFpDiv: "fp.div RNE",
	OFpNeg: "fp.neg", OFpAbs: "fp.abs", OFpEq: "fp.eq", OFpLt: "fp.lt", OFpLe: "fp.leq",
	OFpIsNaN: "fp.isNaN", OFpIsInf: "fp.isInfinite", OFpSqrt: "fp.sqrt RNE",
	ORAdd: "+", ORSub: "-", ORMul: "*", ORDiv: "/", ORNeg: "-", ORLt: "<", ORLe: "<=",
}

// Term is a hash-consed node.  Terms belong to one TermTable (one worker).
type Term struct {
	op     Op
	sort   Sort
	p0, p1 int
	args   []*Term
	name   string
	cv     any // bool, uint64, float64, *big.Rat
	id     uint32
	hash   uint64
	vars   bitset
}

type bitset []uint64

func (b bitset) or(c bitset) bitset {
	if len(c) == 0 {
		return b
	}
	if len(b) == 0 {
		return c
	}
	n := len(b)
	if len(c) > n {
		n = len(c)
	}
	same := true
	r := make(bitset, n)
	copy(r, b)
	for i, x := range c {
		r[i] |= x
	}
	if len(b) == n {
		for i := range r {
			if r[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return b
		}
	}
	return r
}

func (b bitset) intersects(c bitset) bool {
	n := len(b)
	if len(c) < n {
		n = len(c)
	}
	for i := 0; i < n; i++ {
		if b[i]&c[i] != 0 {
			return true
		}
	}
	return false
}

func (b bitset) empty() bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

func (b bitset) each(f func(int)) {
	for i, x := range b {
		for x != 0 {
			k := bits.TrailingZeros64(x)
			f(i*64 + k)
			x &= x - 1
		}
	}
}

type termKey struct {
	op         Op
	sort       Sort
	p0, p1     int32
	a0, a1, a2 uint32
	c          uint64
	s          string
}

type TermTable struct {
	tab    map[termKey]*Term
	vars   []*Term // by var index
	varIdx map[string]int
	n      uint32
	tTrue  *Term
	tFalse *Term
}

func NewTermTable() *TermTable {
	t := &TermTable{tab: map[termKey]*Term{}, varIdx: map[string]int{}}
	t.tTrue = t.Const(boolSort, true)
	t.tFalse = t.Const(boolSort, false)
	return t
}

func (t *TermTable) size() int { return len(t.tab) }

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (t *TermTable) intern(k termKey, args []*Term, cv any) *Term {
	if x, ok := t.tab[k]; ok {
		return x
	}
	t.n++
	x := &Term{op: k.op, sort: k.sort, p0: int(k.p0), p1: int(k.p1), args: args, name: k.s, cv: cv, id: t.n}
	h := mix(uint64(k.op)<<32|uint64(k.sort.K)<<16|uint64(k.sort.W), uint64(uint32(k.p0))<<32|uint64(uint32(k.p1)))
	h = mix(h, k.c)
	if k.s != "" {
		h = mix(h, strHash(k.s))
	}
	for _, a := range args {
		h = mix(h, a.hash)
		x.vars = x.vars.or(a.vars)
	}
	x.hash = h
	t.tab[k] = x
	return x
}

func (t *TermTable) Const(s Sort, v any) *Term {
	k := termKey{op: OConst, sort: s}
	switch s.K {
	case SBool:
		if v.(bool) {
			k.c = 1
		}
	case SBV:
		u := v.(uint64) & mask(int(s.W))
		k.c = u
		v = u
	case SFP:
		f := v.(float64)
		if f != f {
			f = math.NaN()
		}
		k.c = math.Float64bits(f)
		v = f
	case SReal:
		k.s = v.(*big.Rat).RatString()
	}
	return t.intern(k, nil, v)
}

func (t *TermTable) Bool(b bool) *Term {
	if b {
		return t.tTrue
	}
	return t.tFalse
}

func (t *TermTable) BV(w int, v uint64) *Term { return t.Const(bvSort(w), v) }

func (t *TermTable) Var(name string, s Sort) *Term {
	k := termKey{op: OVar, sort: s, s: name}
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := t.intern(k, nil, nil)
	i := len(t.vars)
	t.vars = append(t.vars, x)
	x.p0 = i
	x.vars = make(bitset, i/64+1)
	x.vars[i/64] |= 1 << (i % 64)
	return x
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (x *Term) isConst() bool { return x.op == OConst }
func (x *Term) isTrue() bool  { return x.op == OConst && x.sort.K == SBool && x.cv.(bool) }
func (x *Term) isFalse() bool { return x.op == OConst && x.sort.K == SBool && !x.cv.(bool) }

var commutative = map[Op]bool{OEq: true, OAnd: true, OOr: true, OBvAdd: true, OBvMul: true, OBvAnd: true, OBvOr: true,
	OBvXor: true, OFpAdd: true, OFpMul: true, OFpEq: true, ORAdd: true, ORMul: true}

// raw builds a node without simplification (after constant folding).
func (t *TermTable) raw(op Op, s Sort, p0, p1 int, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
			break
		}
	}
	if all {
		vals := make([]any, len(args))
		for i, a := range args {
			vals[i] = a.cv
		}
		if v, ok := evalOp(op, s, p0, p1, args, vals); ok {
			return t.Const(s, v)
		}
	}
	if commutative[op] && len(args) == 2 {
		a, b := args[0], args[1]
		// constants first, then by structural hash (the same in every worker)
		if b.isConst() && !a.isConst() || (a.isConst() == b.isConst() && b.hash < a.hash) {
			args = []*Term{b, a}
		}
	}
	k := termKey{op: op, sort: s, p0: int32(p0), p1: int32(p1)}
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if x, ok := t.tab[k]; ok {
		return x
	}
	cp := append([]*Term(nil), args...)
	return t.intern(k, cp, nil)
}

func (t *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return t.Bool(!a.cv.(bool))
	}
	if a.op == ONot {
		return a.args[0]
	}
	return t.raw(ONot, boolSort, 0, 0, a)
}

func (t *TermTable) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return t.tFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
		return t.tFalse
	}
	return t.raw(OAnd, boolSort, 0, 0, a, b)
}

func (t *TermTable) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return t.tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
		return t.tTrue
	}
	return t.raw(OOr, boolSort, 0, 0, a, b)
}

func (t *TermTable) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort.K == SBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return t.Not(c)
		}
		if a.isTrue() {
			return t.Or(c, b)
		}
		if a.isFalse() {
			return t.And(t.Not(c), b)
		}
		if b.isTrue() {
			return t.Or(t.Not(c), a)
		}
		if b.isFalse() {
			return t.And(c, a)
		}
	}
	if c.op == ONot {
		return t.Ite(c.args[0], b, a)
	}
	return t.raw(OIte, a.sort, 0, 0, c, a, b)
}

// Eq is SMT equality (on FP: identity with NaN = NaN and +0 != -0).
func (t *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return t.tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.sort.K == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return t.Not(a)
		}
	}
	// zext(x) == const
	if b.op == OZext && a.isConst() {
		a, b = b, a
	}
	if a.op == OZext && b.isConst() {
		w := int(a.args[0].sort.W)
		v := b.cv.(uint64)
		if v&^mask(w) != 0 {
			return t.tFalse
		}
		return t.Eq(a.args[0], t.BV(w, v))
	}
	if a.op == OZext && b.op == OZext && a.args[0].sort == b.args[0].sort {
		return t.Eq(a.args[0], b.args[0])
	}
	return t.raw(OEq, boolSort, 0, 0, a, b)
}

func (t *TermTable) bin(op Op, a, b *Term) *Term {
	s := a.sort
	switch op {
	case OBvUlt, OBvUle, OBvSlt, OBvSle, OFpEq, OFpLt, OFpLe, ORLt, ORLe:
		s = boolSort
	}
	if a.sort != b.sort && op != OConcat {
		panic(fmt.Sprintf("sort mismatch %v: %v %v", opNames[op], a.sort, b.sort))
	}
	zero := func(x *Term) bool {
		if !x.isConst() {
			return false
		}
		switch v := x.cv.(type) {
		case uint64:
			return v == 0
		case *big.Rat:
			return v.Sign() == 0
		}
		return false
	}
	one := func(x *Term) bool {
		if !x.isConst() {
			return false
		}
		switch v := x.cv.(type) {
		case uint64:
			return v == 1
		case *big.Rat:
			return v.Cmp(big.NewRat(1, 1)) == 0
		}
		return false
	}
	switch op {
	case OBvAdd, ORAdd:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
	case OBvSub, ORSub:
		if zero(b) {
			return a
		}
		if a == b {
			if s.K == SReal {
				return t.Const(s, new(big.Rat))
			}
			return t.BV(int(s.W), 0)
		}
	case OBvMul, ORMul:
		if zero(a) || one(b) {
			return a
		}
		if zero(b) || one(a) {
			return b
		}
	case ORDiv:
		if one(b) {
			return a
		}
	case OBvAnd, OBvOr:
		if a == b {
			return a
		}
	case OBvXor:
		if a == b {
			return t.BV(int(s.W), 0)
		}
	case OBvUlt, OBvSlt, ORLt:
		if a == b {
			return t.tFalse
		}
	case OBvUle, OBvSle, ORLe:
		if a == b {
			return t.tTrue
		}
	}
	if op == OConcat {
		s = bvSort(int(a.sort.W) + int(b.sort.W))
	}
	return t.raw(op, s, 0, 0, a, b)
}

func (t *TermTable) un(op Op, a *Term) *Term {
	s := a.sort
	switch op {
	case OFpIsNaN, OFpIsInf:
		s = boolSort
	}
	if (op == OBvNeg || op == OBvNot || op == OFpNeg || op == ORNeg) && a.op == op {
		return a.args[0]
	}
	return t.raw(op, s, 0, 0, a)
}

func (t *TermTable) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == int(a.sort.W)-1 {
		return a
	}
	if (a.op == OZext || a.op == OSext) && lo == 0 && hi < int(a.args[0].sort.W) {
		return t.Extract(a.args[0], hi, 0)
	}
	return t.raw(OExtract, bvSort(hi-lo+1), hi, lo, a)
}

func (t *TermTable) Zext(a *Term, w int) *Term {
	if w == int(a.sort.W) {
		return a
	}
	return t.raw(OZext, bvSort(w), w-int(a.sort.W), 0, a)
}

func (t *TermTable) Sext(a *Term, w int) *Term {
	if w == int(a.sort.W) {
		return a
	}
	return t.raw(OSext, bvSort(w), w-int(a.sort.W), 0, a)
}

// conv builds FP<->BV, FP<->FP conversions.
func (t *TermTable) conv(op Op, s Sort, a *Term) *Term { return t.raw(op, s, 0, 0, a) }

// ---- evaluation ------------------------------------------------------------

func roundFP(w uint16, f float64) float64 {
	if w == 32 {
		return float64(float32(f))
	}
	return f
}

func evalOp(op Op, s Sort, p0, p1 int, args []*Term, v []any) (any, bool) {
	u := func(i int) uint64 { return v[i].(uint64) }
	b := func(i int) bool { return v[i].(bool) }
	f := func(i int) float64 { return v[i].(float64) }
	r := func(i int) *big.Rat { return v[i].(*big.Rat) }
	w := int(s.W)
	m := mask(w)
	aw := 0
	if len(args) > 0 {
		aw = int(args[0].sort.W)
	}
	switch op {
	case ONot:
		return !b(0), true
	case OAnd:
		return b(0) && b(1), true
	case OOr:
		return b(0) || b(1), true
	case OIte:
		if b(0) {
			return v[1], true
		}
		return v[2], true
	case OEq:
		switch x := v[0].(type) {
		case bool:
			return x == b(1), true
		case uint64:
			return x == u(1), true
		case float64:
			y := f(1)
			if x != x || y != y {
				return x != x && y != y, true
			}
			return x == y && math.Signbit(x) == math.Signbit(y), true
		case *big.Rat:
			return x.Cmp(r(1)) == 0, true
		}
	case OBvAdd:
		return (u(0) + u(1)) & m, true
	case OBvSub:
		return (u(0) - u(1)) & m, true
	case OBvMul:
		return (u(0) * u(1)) & m, true
	case OBvUdiv:
		if u(1) == 0 {
			return m, true
		}
		return u(0) / u(1), true
	case OBvUrem:
		if u(1) == 0 {
			return u(0), true
		}
		return u(0) % u(1), true
	case OBvSdiv:
		x, y := sext(u(0), w), sext(u(1), w)
		if y == 0 {
			if x >= 0 {
				return m, true
			}
			return uint64(1), true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OBvSrem:
		x, y := sext(u(0), w), sext(u(1), w)
		if y == 0 {
			return u(0), true
		}
		if y == -1 {
			return uint64(0), true
		}
		return uint64(x%y) & m, true
	case OBvAnd:
		return u(0) & u(1), true
	case OBvOr:
		return u(0) | u(1), true
	case OBvXor:
		return u(0) ^ u(1), true
	case OBvNot:
		return ^u(0) & m, true
	case OBvNeg:
		return (-u(0)) & m, true
	case OBvShl:
		if u(1) >= uint64(w) {
			return uint64(0), true
		}
		return (u(0) << u(1)) & m, true
	case OBvLshr:
		if u(1) >= uint64(w) {
			return uint64(0), true
		}
		return u(0) >> u(1), true
	case OBvAshr:
		sh := u(1)
		if sh >= uint64(w) {
			sh = 63
		}
		return uint64(sext(u(0), w)>>sh) & m, true
	case OBvUlt:
		return u(0) < u(1), true
	case OBvUle:
		return u(0) <= u(1), true
	case OBvSlt:
		return sext(u(0), aw) < sext(u(1), aw), true
	case OBvSle:
		return sext(u(0), aw) <= sext(u(1), aw), true
	case OExtract:
		return (u(0) >> uint(p1)) & m, true
	case OZext:
		return u(0), true
	case OSext:
		return uint64(sext(u(0), aw)) & m, true
	case OConcat:
		if w > 64 {
			return nil, false
		}
		return (u(0)<<args[1].sort.W | u(1)) & m, true
	case OFpAdd:
		return roundFP(s.W, f(0)+f(1)), true
	case OFpSub:
		return roundFP(s.W, f(0)-f(1)), true
	case OFpMul:
		return roundFP(s.W, f(0)*f(1)), true
	case OFpDiv:
		return roundFP(s.W, f(0)/f(1)), true
	case OFpSqrt:
		return roundFP(s.W, math.Sqrt(f(0))), true
	case OFpNeg:
		return -f(0), true
	case OFpAbs:
		return math.Abs(f(0)), true
	case OFpEq:
		return f(0) == f(1), true
	case OFpLt:
		return f(0) < f(1), true
	case OFpLe:
		return f(0) <= f(1), true
	case OFpIsNaN:
		return f(0) != f(0), true
	case OFpIsInf:
		return math.IsInf(f(0), 0), true
	case OFpFromS:
		x := sext(u(0), aw)
		if w == 32 {
			return float64(float32(x)), true
		}
		return float64(x), true
	case OFpFromU:
		if w == 32 {
			return float64(float32(u(0))), true
		}
		return float64(u(0)), true
	case OFpFromFp:
		return roundFP(s.W, f(0)), true
	case OFpToS:
		x := math.Trunc(f(0))
		lim := math.Ldexp(1, w-1)
		if x != x || x < -lim || x >= lim {
			return nil, false
		}
		return uint64(int64(x)) & m, true
	case OFpToU:
		x := math.Trunc(f(0))
		lim := math.Ldexp(1, w)
		if x != x || x < 0 || x >= lim {
			return nil, false
		}
		return uint64(x) & m, true
	case ORAdd:
		return new(big.Rat).Add(r(0), r(1)), true
	case ORSub:
		return new(big.Rat).Sub(r(0), r(1)), true
	case ORMul:
		return new(big.Rat).Mul(r(0), r(1)), true
	case ORDiv:
		if r(1).Sign() == 0 {
			return nil, false
		}
		return new(big.Rat).Quo(r(0), r(1)), true
	case ORNeg:
		return new(big.Rat).Neg(r(0)), true
	case ORLt:
		return r(0).Cmp(r(1)) < 0, true
	case ORLe:
		return r(0).Cmp(r(1)) <= 0, true
	}
	return nil, false
}

// Model maps variable names to values.
type Model map[string]any

func zeroOf(s Sort) any {
	switch s.K {
	case SBool:
		return false
	case SBV:
		return uint64(0)
	case SFP:
		return float64(0)
	}
	return new(big.Rat)
}

// eval evaluates t under m (missing variables are zero); ok=false when not evaluable.
func eval(t *Term, m Model) (any, bool) {
	memo := map[*Term]any{}
	return evalMemo(t, m, memo)
}

func evalMemo(t *Term, m Model, memo map[*Term]any) (any, bool) {
	switch t.op {
	case OConst:
		return t.cv, true
	case OVar:
		if v, ok := m[t.name]; ok {
			if v == nil {
				return nil, false
			}
			return v, true
		}
		return zeroOf(t.sort), true
	}
	if v, ok := memo[t]; ok {
		return v, v != nil
	}
	var arr [3]any
	vals := arr[:len(t.args)]
	if t.op == OIte {
		c, ok := evalMemo(t.args[0], m, memo)
		if !ok {
			return nil, false
		}
		k := 2
		if c.(bool) {
			k = 1
		}
		v, ok := evalMemo(t.args[k], m, memo)
		if ok {
			memo[t] = v
		}
		return v, ok
	}
	if t.op == OAnd || t.op == OOr {
		c, ok := evalMemo(t.args[0], m, memo)
		if ok && c.(bool) == (t.op == OOr) {
			memo[t] = c
			return c, true
		}
		d, ok2 := evalMemo(t.args[1], m, memo)
		if ok2 && d.(bool) == (t.op == OOr) {
			memo[t] = d
			return d, true
		}
		if !ok || !ok2 {
			return nil, false
		}
		memo[t] = d
		return d, true
	}
	for i, a := range t.args {
		v, ok := evalMemo(a, m, memo)
		if !ok {
			return nil, false
		}
		vals[i] = v
	}
	v, ok := evalOp(t.op, t.sort, t.p0, t.p1, t.args, vals)
	if !ok {
		return nil, false
	}
	memo[t] = v
	return v, true
}

// ---- printing --------------------------------------------------------------

func constSMT(s Sort, v any) string {
	switch s.K {
	case SBool:
		if v.(bool) {
			return "true"
		}
		return "false"
	case SBV:
		return fmt.Sprintf("(_ bv%d %d)", v.(uint64), s.W)
	case SFP:
		f := v.(float64)
		if s.W == 32 {
			if f != f {
				return "(_ NaN 8 24)"
			}
			b := math.Float32bits(float32(f))
			return fmt.Sprintf("(fp #b%b #b%08b #b%023b)", b>>31, b>>23&0xff, b&(1<<23-1))
		}
		if f != f {
			return "(_ NaN 11 53)"
		}
		b := math.Float64bits(f)
		return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1))
	case SReal:
		r := v.(*big.Rat)
		n, d := r.Num(), r.Denom()
		ns := n.String() + ".0"
		if n.Sign() < 0 {
			ns = "(- " + new(big.Int).Neg(n).String() + ".0)"
		}
		if d.IsInt64() && d.Int64() == 1 {
			return ns
		}
		return "(/ " + ns + " " + d.String() + ".0)"
	}
	return "?"
}

// writeTerm prints t with let-bindings for shared subterms.
func writeTerm(sb *strings.Builder, t *Term) {
	refs := map[*Term]int{}
	var order []*Term
	var walk func(*Term)
	walk = func(x *Term) {
		if len(x.args) == 0 {
			return
		}
		refs[x]++
		if refs[x] > 1 {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		order = append(order, x)
	}
	walk(t)
	names := map[*Term]string{}
	lets := 0
	var pr func(x *Term)
	pr = func(x *Term) {
		if n, ok := names[x]; ok {
			sb.WriteString(n)
			return
		}
		switch x.op {
		case OConst:
			sb.WriteString(constSMT(x.sort, x.cv))
			return
		case OVar:
			sb.WriteString("|" + x.name + "|")
			return
		}
		sb.WriteString("(")
		switch x.op {
		case OExtract:
			fmt.Fprintf(sb, "(_ extract %d %d)", x.p0, x.p1)
		case OZext:
			fmt.Fprintf(sb, "(_ zero_extend %d)", x.p0)
		case OSext:
			fmt.Fprintf(sb, "(_ sign_extend %d)", x.p0)
		case OFpFromS, OFpFromFp, OFpFromU:
			n := "to_fp"
			if x.op == OFpFromU {
				n = "to_fp_unsigned"
			}
			if x.sort.W == 32 {
				fmt.Fprintf(sb, "(_ %s 8 24) RNE", n)
			} else {
				fmt.Fprintf(sb, "(_ %s 11 53) RNE", n)
			}
		case OFpToS:
			fmt.Fprintf(sb, "(_ fp.to_sbv %d) RTZ", x.sort.W)
		case OFpToU:
			fmt.Fprintf(sb, "(_ fp.to_ubv %d) RTZ", x.sort.W)
		default:
			sb.WriteString(opNames[x.op])
		}
		for _, a := range x.args {
			sb.WriteString(" ")
			pr(a)
		}
		sb.WriteString(")")
	}
	for _, x := range order {
		if refs[x] > 1 && x != t {
			n := fmt.Sprintf("$%d", lets)
			lets++
			sb.WriteString("(let ((" + n + " ")
			pr(x)
			sb.WriteString(")) ")
			names[x] = n
		}
	}
	pr(t)
	for i := 0; i < lets; i++ {
		sb.WriteString(")")
	}
}

func (t *Term) String() string {
	var sb strings.Builder
	writeTerm(&sb, t)
	return sb.String()
}

func sortedVars(tt *TermTable, b bitset) []*Term {
	var r []*Term
	b.each(func(i int) { r = append(r, tt.vars[i]) })
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}
