package main

import (
	"go/token"
	"math"

	"golang.org/x/tools/go/ssa"
)

// If-conversion. A branch on an undecided condition whose arms are straight-line code without calls,
// allocations or anything that can fail is executed on both sides and its effects (stored scalars and
// the phis of the join) are merged with ite, so that the path does not fork. Whatever cannot be merged
// is rolled back and forks as usual.

type merge struct {
	join *ssa.BasicBlock
	arm  [2]*ssa.BasicBlock // nil: the edge goes to the join directly
	edge [2]int             // index of the edge into the join
}

type specAbort struct{}

const maxArm = 12

func (fi *fnInfo) findMerge(b *ssa.BasicBlock) *merge {
	m := &merge{}
	var to [2]*ssa.BasicBlock
	for i, s := range b.Succs {
		to[i] = s
		if len(s.Preds) == 1 && len(s.Succs) == 1 && fi.simple(s) {
			m.arm[i], to[i] = s, s.Succs[0]
		}
	}
	switch {
	case to[0] == to[1]:
	case m.arm[0] != nil && to[0] == b.Succs[1]:
		m.arm[1], to[1] = nil, b.Succs[1]
	case m.arm[1] != nil && to[1] == b.Succs[0]:
		m.arm[0], to[0] = nil, b.Succs[0]
	default:
		return nil
	}
	m.join = to[0]
	if m.join != to[1] || m.arm[0] == nil && m.arm[1] == nil || m.join == b {
		return nil
	}
	for i := range m.arm {
		from := m.arm[i]
		if from == nil {
			from = b
		}
		n := 0
		for k, p := range m.join.Preds {
			if p == from {
				m.edge[i] = k
				n++
			}
		}
		if n != 1 {
			return nil
		}
	}
	return m
}

func (fi *fnInfo) simple(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > maxArm {
		return false
	}
	for i, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			if i != len(b.Instrs)-1 {
				return false
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return false
			}
			switch kindOf(x.X.Type()).c {
			case cBool, cInt, cUint, cFloat:
			default:
				return false
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.ChangeType:
		case *ssa.Store:
			switch kindOf(x.Val.Type()).c {
			case cBool, cInt, cUint, cFloat:
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

type stored struct {
	p   *value
	old value
	k   nk
}

// tryMerge executes both arms of the branch and leaves the frame at the join.
func (fr *frame) tryMerge(m *merge, cond *Term) (ok bool) {
	r := fr.in.run
	var log []stored
	undo := func() {
		for i := len(log) - 1; i >= 0; i-- {
			*log[i].p = log[i].old
		}
		log = nil
	}
	was := r.nofork
	defer func() {
		r.nofork = was
		if ok {
			return
		}
		undo()
		if p := recover(); p != nil {
			switch p.(type) {
			case specAbort, unsupported, targetPanic:
			default:
				panic(p)
			}
		}
	}()
	r.nofork = true
	blk := fr.fi.blocks
	jb := &blk[m.join.Index]
	var phis [2][]value
	var finals [2]map[*value]value
	var kinds = map[*value]nk{}
	var order []*value
	for s := 0; s < 2; s++ {
		finals[s] = map[*value]value{}
		if a := m.arm[s]; a != nil {
			fr.runArm(&blk[a.Index], &log)
		}
		for i := range jb.ins {
			if _, is := jb.ins[i].in.(*ssa.Phi); !is {
				break
			}
			phis[s] = append(phis[s], fr.get(&jb.ins[i].o[m.edge[s]]))
		}
		for _, l := range log {
			if _, seen := kinds[l.p]; !seen {
				kinds[l.p] = l.k
				order = append(order, l.p)
			}
			finals[s][l.p] = *l.p
		}
		undo()
	}
	res := make([]value, len(order))
	for i, p := range order {
		a, okA := finals[0][p]
		if !okA {
			a = *p
		}
		b, okB := finals[1][p]
		if !okB {
			b = *p
		}
		res[i] = fr.in.mergeVal(cond, a, b, kinds[p])
	}
	ph := make([]value, len(phis[0]))
	for i := range ph {
		ph[i] = fr.in.mergeVal(cond, phis[0][i], phis[1][i], kindOf(jb.ins[i].t))
	}
	for i, p := range order {
		*p = res[i]
	}
	for i := range ph {
		fr.regs[jb.ins[i].dst] = ph[i]
	}
	fr.prev, fr.block = fr.block, m.join
	fr.merged = true
	r.nmerge++
	return true
}

func (in *Interp) mergeVal(c *Term, a, b value, k nk) value {
	if sameScalar(a, b) {
		return a
	}
	switch k.c {
	case cBool, cInt, cUint, cFloat:
	default:
		panic(specAbort{})
	}
	if k.w == 64 && k.c != cFloat {
		_, ca := a.(int64)
		_, cb := b.(int64)
		if ca && cb {
			panic(specAbort{}) // counters and indices stay concrete
		}
	}
	return lower(in.tt.Ite(c, in.toTerm(a, k), in.toTerm(b, k)), k)
}

func sameScalar(a, b value) bool {
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	}
	return false
}

func (fr *frame) runArm(cb *cblock, log *[]stored) {
	for i := range cb.ins {
		ci := &cb.ins[i]
		switch x := ci.in.(type) {
		case *ssa.Jump:
		case *ssa.BinOp:
			fr.regs[ci.dst] = fr.binop(x.Op, ci.k, ci.k2, x.X.Type(), fr.get(&ci.o[0]), fr.get(&ci.o[1]))
		case *ssa.UnOp:
			fr.regs[ci.dst] = fr.unop(x, ci, fr.get(&ci.o[0]))
		case *ssa.IndexAddr:
			fr.regs[ci.dst] = fr.indexAddr(ci)
		case *ssa.FieldAddr:
			p, _ := fr.get(&ci.o[0]).(*value)
			if p == nil {
				panic(specAbort{})
			}
			s, ok := (*p).(structv)
			if !ok {
				panic(specAbort{})
			}
			fr.regs[ci.dst] = &s[x.Field]
		case *ssa.Field:
			s, ok := fr.get(&ci.o[0]).(structv)
			if !ok {
				panic(specAbort{})
			}
			fr.regs[ci.dst] = s[x.Field]
		case *ssa.ChangeType:
			fr.regs[ci.dst] = fr.get(&ci.o[0])
		case *ssa.Store:
			p, _ := fr.get(&ci.o[0]).(*value)
			if p == nil {
				panic(specAbort{})
			}
			*log = append(*log, stored{p, *p, kindOf(x.Val.Type())})
			*p = fr.get(&ci.o[1])
		default:
			panic(specAbort{})
		}
	}
}
