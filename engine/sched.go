package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- vector clocks ---------------------------------------------------------

type vclock []uint32

func (v vclock) copy() vclock { return append(vclock(nil), v...) }

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) tick(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

// release publishes g's clock into *to; acquire joins it.
func (g *goroutine) release(to *vclock) {
	to.join(g.vc)
	g.vc.tick(g.id)
}

func (g *goroutine) acquire(from vclock) { g.vc.join(from) }

// ---- channels --------------------------------------------------------------

type chanElem struct {
	v  value
	vc vclock
}

type chanv struct {
	id     int
	cap    int
	buf    []chanElem
	closed bool
	vc     vclock // release clock of close and of receives
}

func (g *goroutine) parkedSenders(ch *chanv) []*goroutine {
	var r []*goroutine
	for _, h := range g.r.gs {
		if h == g || h.dead || h.op == nil || h.op.completed {
			continue
		}
		for _, o := range h.op.sends {
			if o.ch == ch {
				r = append(r, h)
				break
			}
		}
	}
	return r
}

func (g *goroutine) parkedReceivers(ch *chanv) []*goroutine {
	var r []*goroutine
	for _, h := range g.r.gs {
		if h == g || h.dead || h.op == nil || h.op.completed {
			continue
		}
		for _, o := range h.op.recvs {
			if o.ch == ch {
				r = append(r, h)
				break
			}
		}
	}
	return r
}

func (g *goroutine) where() string { return "" }

func (g *goroutine) send(ch *chanv, v value) {
	r := g.r
	if ch == nil {
		g.point(&visOp{enabled: func() bool { return false }, what: "send on nil channel"})
	}
	op := &visOp{what: fmt.Sprintf("send on channel %d", ch.id)}
	if ch.cap == 0 {
		op.sends = []offer{{ch: ch, val: v}}
	}
	op.enabled = func() bool { return ch.closed || len(ch.buf) < ch.cap }
	g.point(op)
	if op.completed {
		return
	}
	if ch.closed {
		panic(r.in.rtPanic("send on closed channel"))
	}
	g.push(ch, v)
}

func (g *goroutine) push(ch *chanv, v value) {
	e := chanElem{v: v}
	g.acquire(ch.vc)
	g.release(&e.vc)
	ch.buf = append(ch.buf, e)
}

func (g *goroutine) recv(ch *chanv) (value, bool) {
	if ch == nil {
		g.point(&visOp{enabled: func() bool { return false }, what: "receive on nil channel"})
	}
	op := &visOp{what: fmt.Sprintf("receive on channel %d", ch.id), recvs: []offer{{ch: ch}}}
	op.enabled = func() bool { return g.recvReady(ch) }
	g.point(op)
	if op.completed {
		return op.val, op.ok
	}
	return g.doRecv(ch)
}

func (g *goroutine) recvReady(ch *chanv) bool {
	return len(ch.buf) > 0 || ch.closed || len(g.parkedSenders(ch)) > 0
}

// doRecv performs a receive that is ready.
func (g *goroutine) doRecv(ch *chanv) (value, bool) {
	if len(ch.buf) > 0 {
		e := ch.buf[0]
		ch.buf = append([]chanElem(nil), ch.buf[1:]...)
		g.acquire(e.vc)
		g.release(&ch.vc)
		return e.v, true
	}
	if s := g.parkedSenders(ch); len(s) > 0 && !ch.closed {
		i := 0
		if len(s) > 1 {
			i = g.r.schedChoice(len(s))
		}
		h := s[i]
		for _, o := range h.op.sends {
			if o.ch == ch {
				h.op.completed = true
				h.op.caseIdx = o.cidx
				g.sync(h)
				return o.val, true
			}
		}
	}
	if ch.closed {
		g.acquire(ch.vc)
		return nil, false
	}
	panic(unsupported{"internal: receive not ready"})
}

// sync is a rendezvous: both goroutines see each other's past.
func (g *goroutine) sync(h *goroutine) {
	j := g.vc.copy()
	j.join(h.vc)
	g.vc.join(j)
	h.vc.join(j)
	g.vc.tick(g.id)
	h.vc.tick(h.id)
}

func (g *goroutine) closeChan(ch *chanv) {
	if ch == nil {
		panic(g.r.in.rtPanic("close of nil channel"))
	}
	g.point(&visOp{enabled: func() bool { return true }, what: "close"})
	if ch.closed {
		panic(g.r.in.rtPanic("close of closed channel"))
	}
	ch.closed = true
	g.release(&ch.vc)
}

func (fr *frame) doSelect(x *ssa.Select, ci *cinstr) value {
	g := fr.g
	r := g.r
	type scase struct {
		ch   *chanv
		send bool
		val  value
		t    types.Type
	}
	cases := make([]scase, len(x.States))
	allNil := true
	stable := true // the outcome cannot depend on the other goroutines
	for i, st := range x.States {
		ch, _ := fr.get(&ci.o[2*i]).(*chanv)
		cases[i] = scase{ch: ch, send: st.Dir == types.SendOnly, t: st.Chan.Type().Underlying().(*types.Chan).Elem()}
		if cases[i].send {
			cases[i].val = copyVal(fr.get(&ci.o[2*i+1]))
		}
		if ch != nil {
			allNil = false
			if !(ch.closed && !cases[i].send && len(x.States) == 1) {
				stable = false
			}
		}
	}
	ready := func() []int {
		var rd []int
		for i, c := range cases {
			if c.ch == nil {
				continue
			}
			if c.send {
				if c.ch.closed || len(c.ch.buf) < c.ch.cap {
					rd = append(rd, i)
				}
			} else if g.recvReady(c.ch) {
				rd = append(rd, i)
			}
		}
		return rd
	}
	result := func(idx int, val value, ok bool) value {
		t := tuple{int64(idx), ok}
		for i, st := range x.States {
			if st.Dir == types.RecvOnly {
				if i == idx && ok {
					t = append(t, val)
				} else {
					t = append(t, zero(cases[i].t))
				}
			}
		}
		return t
	}
	perform := func(i int) value {
		c := cases[i]
		if c.send {
			if c.ch.closed {
				panic(r.in.rtPanic("send on closed channel"))
			}
			g.push(c.ch, c.val)
			return result(i, nil, false)
		}
		v, ok := g.doRecv(c.ch)
		return result(i, v, ok)
	}
	if !x.Blocking {
		if allNil {
			return result(-1, nil, false)
		}
		if !stable {
			g.point(&visOp{enabled: func() bool { return true }, what: "select"})
		}
		rd := ready()
		sure := false // some case is ready independently of a partner's arrival
		for _, i := range rd {
			c := cases[i]
			if c.ch.closed || len(c.ch.buf) > 0 || c.send {
				sure = true
			}
		}
		// polling sends on unbuffered channels with a parked receiver
		var rendez []int
		for i, c := range cases {
			if c.ch != nil && c.send && c.ch.cap == 0 && !c.ch.closed && len(g.parkedReceivers(c.ch)) > 0 {
				rendez = append(rendez, i)
			}
		}
		n := len(rd) + len(rendez)
		if n == 0 {
			return result(-1, nil, false)
		}
		opts := n
		if !sure {
			opts++ // the partner may not have arrived yet: default
		}
		k := 0
		if opts > 1 {
			k = r.schedChoice(opts)
		}
		if k == n {
			return result(-1, nil, false)
		}
		if k < len(rd) {
			return perform(rd[k])
		}
		i := rendez[k-len(rd)]
		hs := g.parkedReceivers(cases[i].ch)
		h := hs[0]
		if len(hs) > 1 {
			h = hs[r.schedChoice(len(hs))]
		}
		for _, o := range h.op.recvs {
			if o.ch == cases[i].ch {
				h.op.completed, h.op.caseIdx, h.op.val, h.op.ok = true, o.cidx, cases[i].val, true
				g.sync(h)
				break
			}
		}
		return result(i, nil, false)
	}
	op := &visOp{what: "select"}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		if c.send {
			if c.ch.cap == 0 {
				op.sends = append(op.sends, offer{ch: c.ch, val: c.val, cidx: i})
			}
		} else {
			op.recvs = append(op.recvs, offer{ch: c.ch, cidx: i})
		}
	}
	op.enabled = func() bool { return len(ready()) > 0 }
	g.point(op)
	if op.completed {
		i := op.caseIdx
		if cases[i].send {
			return result(i, nil, false)
		}
		return result(i, op.val, op.ok)
	}
	rd := ready()
	i := rd[0]
	if len(rd) > 1 {
		i = rd[r.schedChoice(len(rd))]
	}
	return perform(i)
}

// ---- sync ------------------------------------------------------------------

type mutexSt struct {
	locked  bool
	readers int
	waiting int // announced writers
	vc      vclock
	rvc     vclock
}

type wgSt struct {
	n  int64
	vc vclock
}

type onceSt struct {
	state int // 0 new, 1 running, 2 done
	vc    vclock
}

func (r *Run) mutex(p *value) *mutexSt {
	m := r.mutexes[p]
	if m == nil {
		m = &mutexSt{}
		r.mutexes[p] = m
	}
	return m
}

func (g *goroutine) lock(p *value, rw bool) {
	m := g.r.mutex(p)
	if rw {
		g.point(&visOp{enabled: func() bool { return true }, what: "RWMutex.Lock (announce)"})
		m.waiting++
	}
	g.point(&visOp{enabled: func() bool { return !m.locked && m.readers == 0 }, what: "Lock"})
	if rw {
		m.waiting--
	}
	m.locked = true
	g.acquire(m.vc)
	g.acquire(m.rvc)
}

func (g *goroutine) unlock(p *value) {
	m := g.r.mutex(p)
	if !m.locked {
		g.r.fail("fatal", "unlock of unlocked mutex", false)
	}
	m.locked = false
	g.release(&m.vc)
}

func (g *goroutine) rlock(p *value) {
	m := g.r.mutex(p)
	g.point(&visOp{enabled: func() bool { return !m.locked && m.waiting == 0 }, what: "RLock"})
	m.readers++
	g.acquire(m.vc)
}

func (g *goroutine) runlock(p *value) {
	m := g.r.mutex(p)
	if m.readers <= 0 {
		g.r.fail("fatal", "RUnlock of unlocked RWMutex", false)
	}
	m.readers--
	g.release(&m.rvc)
}

func (g *goroutine) tryLock(p *value) bool {
	m := g.r.mutex(p)
	g.point(&visOp{enabled: func() bool { return true }, what: "TryLock"})
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	g.acquire(m.vc)
	g.acquire(m.rvc)
	return true
}

func (g *goroutine) tryRLock(p *value) bool {
	m := g.r.mutex(p)
	g.point(&visOp{enabled: func() bool { return true }, what: "TryRLock"})
	if m.locked || m.waiting > 0 {
		return false
	}
	m.readers++
	g.acquire(m.vc)
	return true
}

func (r *Run) waitGroup(p *value) *wgSt {
	w := r.wgs[p]
	if w == nil {
		w = &wgSt{}
		r.wgs[p] = w
	}
	return w
}

func (g *goroutine) wgAdd(p *value, d int64) {
	w := g.r.waitGroup(p)
	w.n += d
	if w.n < 0 {
		panic(targetPanic{iface{t: types.Typ[types.String], v: "sync: negative WaitGroup counter"}})
	}
	g.release(&w.vc)
}

func (g *goroutine) wgWait(p *value) {
	w := g.r.waitGroup(p)
	g.point(&visOp{enabled: func() bool { return w.n == 0 }, what: "WaitGroup.Wait"})
	g.acquire(w.vc)
}

func (fr *frame) onceDo(p *value, f value) {
	g := fr.g
	o := g.r.onces[p]
	if o == nil {
		o = &onceSt{}
		g.r.onces[p] = o
	}
	g.point(&visOp{enabled: func() bool { return o.state != 1 }, what: "Once.Do"})
	if o.state == 2 {
		g.acquire(o.vc)
		return
	}
	o.state = 1
	defer func() {
		o.state = 2
		g.release(&o.vc)
	}()
	fr.in.call(g, fr, f, nil)
}

// atomicPoint orders an atomic access.
func (g *goroutine) atomicPoint(p *value) {
	if len(g.r.gs) > 1 {
		g.point(&visOp{enabled: func() bool { return true }, what: "atomic"})
	}
	vc := g.r.atomVC[p]
	g.acquire(vc)
	g.release(&vc)
	g.r.atomVC[p] = vc
}

// ---- race detection --------------------------------------------------------

type shadowCell struct {
	wg    int
	wc    uint32
	wpos  token.Pos
	wfn   string
	reads map[int]readRec
}

type readRec struct {
	c   uint32
	pos token.Pos
	fn  string
}

func (fr *frame) cell(k any) *shadowCell {
	s := fr.in.run.shadow[k]
	if s == nil {
		s = &shadowCell{wg: -1}
		fr.in.run.shadow[k] = s
	}
	return s
}

func (fr *frame) rd(k any) {
	g := fr.g
	s := fr.cell(k)
	if s.wg >= 0 && s.wg != g.id && g.vc.get(s.wg) < s.wc {
		fr.race("write", s.wfn, s.wpos, "read")
	}
	if s.reads == nil {
		s.reads = map[int]readRec{}
	}
	s.reads[g.id] = readRec{g.vc.get(g.id), fr.pos, fr.fi.name}
}

func (fr *frame) wr(k any) {
	g := fr.g
	s := fr.cell(k)
	if s.wg >= 0 && s.wg != g.id && g.vc.get(s.wg) < s.wc {
		fr.race("write", s.wfn, s.wpos, "write")
	}
	for id, rr := range s.reads {
		if id != g.id && g.vc.get(id) < rr.c {
			fr.race("read", rr.fn, rr.pos, "write")
		}
	}
	s.reads = nil
	s.wg, s.wc, s.wpos, s.wfn = g.id, g.vc.get(g.id), fr.pos, fr.fi.name
}

func (fr *frame) race(k1, fn string, pos token.Pos, k2 string) {
	fr.in.run.fail("data-race", fmt.Sprintf("%s in %s (%s) and %s in %s (%s) are not ordered", k1, fn, fr.in.posOf(pos), k2, fr.fi.name, fr.in.posOf(fr.pos)), true)
}

func (fr *frame) raceRead(p *value) {
	switch x := (*p).(type) {
	case structv:
		for i := range x {
			fr.raceRead(&x[i])
		}
		return
	case arrayv:
		for i := range x {
			fr.raceRead(&x[i])
		}
		return
	}
	fr.rd(p)
}

func (fr *frame) raceWrite(p *value) {
	switch x := (*p).(type) {
	case structv:
		for i := range x {
			fr.raceWrite(&x[i])
		}
		return
	case arrayv:
		for i := range x {
			fr.raceWrite(&x[i])
		}
		return
	}
	fr.wr(p)
}

func (fr *frame) raceMap(m *mapv, write bool) {
	if write {
		fr.wr(m)
	} else {
		fr.rd(m)
	}
}
