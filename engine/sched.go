package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Chan is a channel of the program under test.
type Chan struct {
	buf    []Value
	cap    int
	closed bool
	id     uint64
	// senders blocked on an unbuffered/full channel
	sendq []*sendWait
	recvw int // receivers currently waiting
}

type sendWait struct {
	v    Value
	done bool
	dead bool
}

func chanOf(v Value) *Chan {
	if v.r == nil {
		return nil
	}
	return v.r.(*Chan)
}

func (m *Machine) newChan(n int) *Chan {
	m.nextID++
	return &Chan{cap: n, id: m.nextID}
}

// coro is a goroutine of the program under test.
type coro struct {
	id     int
	resume chan struct{}
	ready  func() bool // nil: runnable
	done   bool
	cur    *frame
	depth  int
}

func (m *Machine) curCoro() *coro {
	if m.running == nil {
		m.running = &coro{resume: make(chan struct{})}
		m.coros = []*coro{m.running}
	}
	return m.running
}

func (m *Machine) spawn(d *deferred) {
	main := m.curCoro()
	_ = main
	c := &coro{id: len(m.coros), resume: make(chan struct{})}
	m.coros = append(m.coros, c)
	go func() {
		<-c.resume
		defer func() {
			r := recover()
			c.done = true
			if m.killing {
				m.killed <- struct{}{}
				return
			}
			if r != nil {
				m.abort = r
				m.switchTo(m.coros[0], nil)
				return
			}
			n := m.pick(nil)
			if n == nil {
				// everything is blocked, main included
				m.abort = &tpanic{msg: "deadlock: all goroutines are asleep", where: "scheduler"}
				n = m.coros[0]
			}
			m.switchTo(n, nil)
		}()
		if m.killing {
			return
		}
		m.cur, m.depth = nil, 0
		d.run(m, &frame{m: m, fi: m.rootInfo})
	}()
}

// switchTo hands the machine to n; if self is non-nil, waits to be resumed.
func (m *Machine) switchTo(n, self *coro) {
	if n == self {
		return
	}
	if self != nil {
		self.cur, self.depth = m.cur, m.depth
	}
	m.running = n
	n.resume <- struct{}{}
	if self != nil {
		<-self.resume
		if m.killing {
			panic(&pathEnd{"killed"})
		}
		m.running = self
		m.cur, m.depth = self.cur, self.depth
		if self.id == 0 && m.abort != nil {
			r := m.abort
			m.abort = nil
			panic(r)
		}
	}
}

// pick selects a runnable goroutine other than self, or nil.
func (m *Machine) pick(self *coro) *coro {
	var rs []*coro
	for _, c := range m.coros {
		if c == self || c.done {
			continue
		}
		if c.ready == nil || c.ready() {
			rs = append(rs, c)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	i := 0
	if len(rs) > 1 && m.schedChoices > 0 {
		m.schedChoices--
		i = m.choose("sched", len(rs))
	}
	return rs[i]
}

// wait blocks the current goroutine until ready() holds.
func (m *Machine) wait(ready func() bool) {
	self := m.curCoro()
	for !ready() {
		self.ready = ready
		n := m.pick(self)
		if n == nil {
			self.ready = nil
			panic(&tpanic{msg: "deadlock: all goroutines are asleep", where: "scheduler"})
		}
		m.switchTo(n, self)
		self.ready = nil
	}
}

// gosched lets other goroutines run.
func (m *Machine) gosched() {
	self := m.curCoro()
	if n := m.pick(self); n != nil {
		m.switchTo(n, self)
	}
}

// killCoros ends all goroutines at the end of a path.
func (m *Machine) killCoros() {
	if m.coros == nil {
		return
	}
	m.killing = true
	for _, c := range m.coros[1:] {
		if !c.done {
			c.resume <- struct{}{}
			<-m.killed
		}
	}
	m.killing = false
	m.coros, m.running, m.abort = nil, nil, nil
}

func (ch *Chan) firstSender() *sendWait {
	for _, s := range ch.sendq {
		if !s.dead && !s.done {
			return s
		}
	}
	return nil
}

func (ch *Chan) canRecv() bool {
	return len(ch.buf) > 0 || ch.firstSender() != nil || ch.closed
}

func (ch *Chan) canSend() bool {
	return ch.closed || len(ch.buf) < ch.cap || (ch.cap == 0 && ch.recvw > 0 && ch.firstSender() == nil)
}

func (m *Machine) chanSend(ch *Chan, v Value) {
	if ch == nil {
		m.wait(func() bool { return false })
	}
	if ch.closed {
		m.rtpanic("send on closed channel")
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		return
	}
	s := &sendWait{v: v}
	ch.sendq = append(ch.sendq, s)
	m.wait(func() bool { return s.done || ch.closed })
	if !s.done {
		s.dead = true
		m.rtpanic("send on closed channel")
	}
}

func (m *Machine) doRecv(ch *Chan, zero Value) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if s := ch.firstSender(); s != nil {
			ch.buf = append(ch.buf, s.v)
			s.done = true
		}
		return v, true
	}
	if s := ch.firstSender(); s != nil {
		s.done = true
		return s.v, true
	}
	return zero, false
}

func (m *Machine) chanRecv(ch *Chan, zero Value) (Value, bool) {
	if ch == nil {
		m.wait(func() bool { return false })
	}
	if !ch.canRecv() {
		ch.recvw++
		func() {
			defer func() { ch.recvw-- }()
			m.wait(ch.canRecv)
		}()
	}
	return m.doRecv(ch, zero)
}

func (m *Machine) chanClose(ch *Chan) {
	if ch == nil || ch.closed {
		m.rtpanic("close of nil or closed channel")
	}
	ch.closed = true
}

func (c *compiler) sel(x *ssa.Select, dst int) instrFn {
	type state struct {
		send bool
		ch   opnd
		v    opnd
		zero Value
	}
	var sts []state
	nrecv := 0
	for _, s := range x.States {
		st := state{send: s.Dir == types.SendOnly, ch: c.op(s.Chan)}
		if st.send {
			st.v = c.op(s.Send)
		} else {
			nrecv++
			st.zero = zeroValue(s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
		sts = append(sts, st)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		m := fr.m
		chs := make([]*Chan, len(sts))
		for i := range sts {
			chs[i] = chanOf(fr.get(&sts[i].ch))
		}
		ready := func() []int {
			var rs []int
			for i := range sts {
				ch := chs[i]
				if ch == nil {
					continue
				}
				if sts[i].send && ch.canSend() || !sts[i].send && ch.canRecv() {
					rs = append(rs, i)
				}
			}
			return rs
		}
		rs := ready()
		if len(rs) == 0 && blocking {
			for i := range sts {
				if !sts[i].send && chs[i] != nil {
					chs[i].recvw++
				}
			}
			func() {
				defer func() {
					for i := range sts {
						if !sts[i].send && chs[i] != nil {
							chs[i].recvw--
						}
					}
				}()
				m.wait(func() bool { return len(ready()) > 0 })
			}()
			rs = ready()
		}
		out := make([]Value, 2+nrecv)
		k := 2
		for i := range sts {
			if !sts[i].send {
				out[k] = sts[i].zero
				k++
			}
		}
		if len(rs) == 0 {
			out[0] = Value{n: ^uint64(0)}
			fr.regs[dst] = Value{r: &Agg{out}}
			return
		}
		pick := 0
		if len(rs) > 1 && m.schedChoices > 0 {
			m.schedChoices--
			pick = m.choose("select", len(rs))
		}
		i := rs[pick]
		out[0] = intV(i)
		if sts[i].send {
			m.chanSend(chs[i], fr.get(&sts[i].v))
		} else {
			v, ok := m.doRecv(chs[i], sts[i].zero)
			out[1] = boolV(ok)
			k := 2
			for j := 0; j < i; j++ {
				if !sts[j].send {
					k++
				}
			}
			out[k] = v
		}
		fr.regs[dst] = Value{r: &Agg{out}}
	}
}
