package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// G is an interpreted goroutine, run on its own host goroutine; exactly one
// holds the baton at any time.
type G struct {
	id      int
	wake    chan struct{}
	exited  chan struct{}
	ready   func() bool // nil: runnable
	done    bool
	what    string // what it is blocked on
	fn      Val
	args    []Val
	started bool
	fr      *Frame // innermost frame (kept with memYield only)
}

type sudog struct {
	g    *G
	val  Val // value to send / received value
	ok   bool
	sel  *selState
	idx  int
	send bool
}

type selState struct {
	done       bool
	idx        int
	val        Val
	ok         bool
	closedSend bool
}

type ChanObj struct {
	id     uint64
	frozen bool
	cap_   int
	et     *TInfo
	buf    []Val
	closed bool
	recvq  []*sudog
	sendq  []*sudog
}

func (m *Machine) newG(f Val, args []Val) *G {
	g := &G{id: len(m.gs), wake: make(chan struct{}, 1), exited: make(chan struct{}), fn: f, args: args}
	m.gs = append(m.gs, g)
	return g
}

func (m *Machine) spawn(g *G, f Val, args []Val, pos string) {
	if m.initMode > 0 {
		return // background goroutines of package initialisers are not started
	}
	n := m.newG(f, args)
	n.what = pos
	m.hbSpawn(g, n)
	go m.gmain(n)
	m.yield(g)
}

func (m *Machine) gmain(g *G) {
	defer close(g.exited)
	<-g.wake
	if m.killing {
		return
	}
	g.started = true
	fin := func() (r any) {
		defer func() {
			if e := recover(); e != nil {
				r = e
				switch e.(type) {
				case *targetPanic, *pathEnd, *unsupErr, *killPath:
				default:
					saveStack()
				}
			}
		}()
		m.callValue(g, nil, g.fn, g.args)
		return nil
	}()
	g.done = true
	if fin != nil {
		if _, ok := fin.(*killPath); ok {
			return
		}
		m.done <- fin
		return
	}
	if g.id == 0 {
		m.done <- nil
		return
	}
	// hand over to another goroutine
	fin = func() (r any) {
		defer func() {
			if e := recover(); e != nil {
				r = e
			}
		}()
		t := m.pickNext(g, "exit")
		m.cur = t
		t.wake <- struct{}{}
		return nil
	}()
	if fin != nil {
		m.done <- fin
	}
}

func (m *Machine) runnable() []*G {
	var r []*G
	for _, g := range m.gs {
		if !g.done && (g.ready == nil || g.ready()) {
			r = append(r, g)
		}
	}
	return r
}

func (m *Machine) pickNext(g *G, why string) *G {
	r := m.runnable()
	if len(r) == 0 {
		s := "deadlock:"
		for _, q := range m.gs {
			if !q.done {
				s += fmt.Sprintf(" [goroutine %d blocked on %s]", q.id, q.what)
			}
		}
		panic(&pathEnd{s})
	}
	k := m.choose(len(r))
	m.logSched(g, r[k], why)
	return r[k]
}

func (m *Machine) logSched(from, to *G, why string) {
	if len(m.schedLog) < 400 {
		m.schedLog = append(m.schedLog, fmt.Sprintf("%d->%d %s", from.id, to.id, why))
	}
}

func (m *Machine) switchTo(g, t *G) {
	if t == g {
		return
	}
	m.cur = t
	t.wake <- struct{}{}
	<-g.wake
	if m.killing {
		panic(&killPath{})
	}
	m.cur = g
}

// yield is a scheduling point at which the current goroutine stays runnable.
func (m *Machine) yield(g *G) {
	if len(m.gs) <= 1 || m.initMode > 0 || m.preempt <= 0 {
		return
	}
	r := m.runnable()
	if len(r) <= 1 {
		return
	}
	// put the current goroutine first
	for i, q := range r {
		if q == g {
			copy(r[1:i+1], r[:i])
			r[0] = g
			break
		}
	}
	k := m.choose(len(r))
	if k == 0 {
		return
	}
	m.preempt--
	m.logSched(g, r[k], "preempt")
	m.switchTo(g, r[k])
}

// gosched voluntarily yields (no preemption cost).
func (m *Machine) gosched(g *G) {
	if len(m.gs) <= 1 || m.initMode > 0 {
		return
	}
	r := m.runnable()
	if len(r) <= 1 {
		return
	}
	// prefer others first
	var o []*G
	for _, q := range r {
		if q != g {
			o = append(o, q)
		}
	}
	o = append(o, g)
	k := m.choose(len(o))
	m.logSched(g, o[k], "gosched")
	m.switchTo(g, o[k])
}

// block waits until ready() holds.
func (m *Machine) block(g *G, what string, ready func() bool) {
	m.noSpec("block")
	if g == nil || m.initMode > 0 {
		if !ready() {
			panic(unsup("blocking operation during initialisation: %s", what))
		}
		return
	}
	for !ready() {
		g.ready, g.what = ready, what
		t := m.pickNext(g, what)
		m.switchTo(g, t)
		g.ready = nil
	}
}

// ---- channels

func (q *ChanObj) deq(l *[]*sudog) *sudog {
	for len(*l) > 0 {
		s := (*l)[0]
		*l = (*l)[1:]
		if s.sel.done {
			continue
		}
		return s
	}
	return nil
}

func (q *ChanObj) hasWaiter(l []*sudog) bool {
	for _, s := range l {
		if !s.sel.done {
			return true
		}
	}
	return false
}

func (m *Machine) chanTouch(q *ChanObj) {
	m.noSpec("chan")
	if q.frozen && m.initMode == 0 {
		buf, cl := append([]Val{}, q.buf...), q.closed
		m.journal = append(m.journal, jent{undo: func() { q.buf, q.closed, q.recvq, q.sendq = buf, cl, nil, nil }})
	}
}

func (m *Machine) trySend(q *ChanObj, v Val) bool {
	if q.closed {
		panic(&targetPanic{msg: "send on closed channel", rt: true, v: m.rtErr("send on closed channel")})
	}
	if s := q.deq(&q.recvq); s != nil {
		s.sel.done, s.sel.idx, s.sel.val, s.sel.ok = true, s.idx, v, true
		return true
	}
	if len(q.buf) < q.cap_ {
		q.buf = append(append([]Val{}, q.buf...), v)
		return true
	}
	return false
}

func (m *Machine) tryRecv(q *ChanObj) (Val, bool, bool) {
	if len(q.buf) > 0 {
		v := q.buf[0]
		q.buf = append([]Val{}, q.buf[1:]...)
		if s := q.deq(&q.sendq); s != nil {
			q.buf = append(q.buf, s.val)
			s.sel.done, s.sel.idx = true, s.idx
		}
		return v, true, true
	}
	if s := q.deq(&q.sendq); s != nil {
		s.sel.done, s.sel.idx = true, s.idx
		return s.val, true, true
	}
	if q.closed {
		return zeroVal(q.et), false, true
	}
	return Val{}, false, false
}

func (m *Machine) chanSend(g *G, cv, v Val) {
	q, _ := cv.R.(*ChanObj)
	if q == nil {
		m.block(g, "send on nil channel", func() bool { return false })
	}
	m.chanTouch(q)
	m.yield(g)
	m.hbBoth(g, q)
	if m.trySend(q, v) {
		return
	}
	st := &selState{}
	q.sendq = append(q.sendq, &sudog{g: g, val: v, sel: st, send: true})
	m.block(g, "channel send", func() bool { return st.done })
	m.hbAcq(g, q)
	if st.closedSend {
		panic(&targetPanic{msg: "send on closed channel", rt: true, v: m.rtErr("send on closed channel")})
	}
}

func (m *Machine) chanRecv(g *G, cv Val) (Val, bool) {
	q, _ := cv.R.(*ChanObj)
	if q == nil {
		m.block(g, "receive on nil channel", func() bool { return false })
	}
	m.chanTouch(q)
	m.yield(g)
	m.hbBoth(g, q)
	if v, ok, done := m.tryRecv(q); done {
		return v, ok
	}
	st := &selState{}
	q.recvq = append(q.recvq, &sudog{g: g, sel: st})
	m.block(g, "channel receive", func() bool { return st.done })
	m.hbAcq(g, q)
	if !st.ok {
		return zeroVal(q.et), false
	}
	return st.val, true
}

func (m *Machine) chanClose(g *G, cv Val) {
	q, _ := cv.R.(*ChanObj)
	if q == nil {
		panic(&targetPanic{msg: "close of nil channel", rt: true, v: m.rtErr("close of nil channel")})
	}
	m.chanTouch(q)
	m.yield(g)
	if q.closed {
		panic(&targetPanic{msg: "close of closed channel", rt: true, v: m.rtErr("close of closed channel")})
	}
	m.hbRel(g, q)
	q.closed = true
	for s := q.deq(&q.recvq); s != nil; s = q.deq(&q.recvq) {
		s.sel.done, s.sel.idx, s.sel.val, s.sel.ok = true, s.idx, zeroVal(q.et), false
	}
	for s := q.deq(&q.sendq); s != nil; s = q.deq(&q.sendq) {
		s.sel.done, s.sel.idx, s.sel.closedSend = true, s.idx, true
	}
}

func (m *Machine) execSelect(g *G, fr *Frame, ci *cInstr, q *ssa.Select) Val {
	m.noSpec("select")
	type cs struct {
		ch   *ChanObj
		send bool
		v    Val
	}
	var cases []cs
	for i, s := range q.States {
		ch, _ := m.get(fr, &ci.args[2*i]).R.(*ChanObj)
		c := cs{ch: ch, send: s.Send != nil}
		if c.send {
			c.v = m.get(fr, &ci.args[2*i+1])
		}
		if ch != nil {
			m.chanTouch(ch)
		}
		cases = append(cases, c)
	}
	m.yield(g)
	mk := func(idx int, ok bool, rv Val) Val {
		out := []Val{IV(idx), BV(ok)}
		if idx < 0 {
			out[0] = KV(^uint64(0))
		}
		for i, s := range q.States {
			if s.Send == nil {
				if i == idx {
					out = append(out, rv)
				} else {
					out = append(out, zeroVal(cases2elem(ci, i)))
				}
			}
		}
		return Val{R: &Tuple{out}}
	}
	readySet := func() []int {
		var r []int
		for i, c := range cases {
			if c.ch == nil {
				continue
			}
			if c.send {
				if c.ch.closed || c.ch.hasWaiter(c.ch.recvq) || len(c.ch.buf) < c.ch.cap_ {
					r = append(r, i)
				}
			} else if len(c.ch.buf) > 0 || c.ch.closed || c.ch.hasWaiter(c.ch.sendq) {
				r = append(r, i)
			}
		}
		return r
	}
	if r := readySet(); len(r) > 0 {
		i := r[m.choose(len(r))]
		c := cases[i]
		m.hbBoth(g, c.ch)
		if c.send {
			m.trySend(c.ch, c.v)
			return mk(i, false, Val{})
		}
		v, ok, _ := m.tryRecv(c.ch)
		return mk(i, ok, v)
	}
	if !q.Blocking {
		return mk(-1, false, Val{})
	}
	st := &selState{}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		sd := &sudog{g: g, sel: st, idx: i, val: c.v, send: c.send}
		if c.send || c.ch.cap_ == 0 {
			m.hbRel(g, c.ch)
		}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, sd)
		} else {
			c.ch.recvq = append(c.ch.recvq, sd)
		}
	}
	m.block(g, "select at "+m.posOf(fr, ci), func() bool { return st.done })
	if st.closedSend {
		panic(&targetPanic{msg: "send on closed channel", rt: true, v: m.rtErr("send on closed channel")})
	}
	m.hbAcq(g, cases[st.idx].ch)
	return mk(st.idx, st.ok, st.val)
}

func cases2elem(ci *cInstr, i int) *TInfo {
	return ci.args[2*i].t.elem
}

// ---- shared-memory accesses as scheduling points

func (m *Machine) memAccess(g *G, p *Ptr, n int, write bool) {
	if g == nil || len(m.gs) <= 1 || m.initMode > 0 || n == 0 {
		return
	}
	o := p.o
	if !o.shared {
		if o.owner == g.id {
			return
		}
		if o.frozen {
			m.noSpec("shared access")
			m.memYieldTo(g)
			m.raceMem(g, p, n, write)
			return
		}
		o.shared = true
		if m.E.shareSite(o.site) {
			panic(&pathEnd{"restart"})
		}
	}
	m.noSpec("shared access")
	m.memYieldTo(g)
	m.raceMem(g, p, n, write)
}

func (m *Machine) raceMem(g *G, p *Ptr, n int, write bool) {
	if m.race != nil && p.ix == nil {
		m.raceAccess(g, p.o, p.off, n, write)
	}
}

func (m *Machine) mapAccess(g *G, mo *MapObj, write bool) {
	if g == nil || len(m.gs) <= 1 || m.initMode > 0 {
		return
	}
	m.noSpec("shared map")
	m.memYieldTo(g)
	if m.race != nil {
		s := m.race.maps[mo]
		if s == nil {
			s = &shadow{}
			m.race.maps[mo] = s
		}
		where, repo := m.raceSite(g)
		m.raceCheck(g, s, where, repo, write)
	}
}

func (m *Machine) memYieldTo(g *G) {
	if m.race == nil || m.race.yields {
		m.yield(g)
	}
}
