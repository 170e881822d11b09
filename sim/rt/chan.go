package rt

import (
	"runtime"
	"unsafe"
)

// Channels of rewritten code keep their Go types; their state lives in a side table keyed by
// the channel's identity, so that every operation is a scheduling decision of the simulator.

type chanKey = unsafe.Pointer

type waiter struct {
	t     *Task
	cs    *Case
	group *selGroup
}

type selGroup struct {
	done  bool
	fired int
}

type chanState struct {
	buf    []any
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	keep   any
}

func chanOf[T any](c chan T) *chanState {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if p == nil {
		return nil
	}
	s := W.chans[p]
	if s == nil {
		s = &chanState{cap: cap(c), keep: c}
		W.chans[p] = s
	}
	return s
}

func bidi[T any, C ~chan T | ~chan<- T | ~<-chan T](c C) chan T {
	return *(*chan T)(unsafe.Pointer(&c))
}

// Case is one arm of a select.
type Case struct {
	st   *chanState
	send bool
	val  any
	ok   bool
	idx  int
}

type RCase[T any] struct{ c Case }

func (r *RCase[T]) base() *Case { return &r.c }
func (r *RCase[T]) Val() T {
	if r.c.val == nil {
		var z T
		return z
	}
	return r.c.val.(T)
}
func (r *RCase[T]) Val2() (T, bool) { return r.Val(), r.c.ok }

type SCase[T any] struct{ c Case }

func (r *SCase[T]) base() *Case { return &r.c }

// With sets the value to send.
func (r *SCase[T]) With(v T) *SCase[T] { r.c.val = v; return r }

type AnyCase interface{ base() *Case }

func CR[T any, C ~chan T | ~<-chan T](c C) *RCase[T] {
	return &RCase[T]{Case{st: chanOf(bidi[T](c))}}
}
func CS[T any, C ~chan T | ~chan<- T](c C) *SCase[T] {
	return &SCase[T]{Case{st: chanOf(bidi[T](c)), send: true}}
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.group.done || w.t.done || w.t.killed {
			continue
		}
		return w
	}
	return nil
}

func liveWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.group.done && !w.t.done && !w.t.killed {
			return true
		}
	}
	return false
}

func (c *Case) readyNow() bool {
	if c.st == nil {
		return false
	}
	if c.send {
		return c.st.closed || len(c.st.buf) < c.st.cap || liveWaiter(c.st.recvq)
	}
	return len(c.st.buf) > 0 || c.st.closed || liveWaiter(c.st.sendq)
}

func (c *Case) fire() {
	s := c.st
	if c.send {
		if s.closed {
			panic("send on closed channel")
		}
		if r := popWaiter(&s.recvq); r != nil {
			r.cs.val, r.cs.ok = c.val, true
			r.group.done, r.group.fired = true, r.cs.idx
			W.ready(r.t)
			return
		}
		s.buf = append(s.buf, c.val)
		return
	}
	if len(s.buf) > 0 {
		c.val, c.ok = s.buf[0], true
		s.buf = s.buf[1:]
		if x := popWaiter(&s.sendq); x != nil {
			s.buf = append(s.buf, x.cs.val)
			x.group.done, x.group.fired = true, x.cs.idx
			W.ready(x.t)
		}
		return
	}
	if x := popWaiter(&s.sendq); x != nil {
		c.val, c.ok = x.cs.val, true
		x.group.done, x.group.fired = true, x.cs.idx
		W.ready(x.t)
		return
	}
	c.val, c.ok = nil, false // closed
}

// Select blocks until a case can proceed and returns its index, or -1 for the default.
func Select(def bool, cases ...AnyCase) int {
	w := W
	if w == nil || w.cur == nil {
		panic("rt: channel operation outside the simulation")
	}
	w.Yield()
	var rdy []int
	for i, a := range cases {
		c := a.base()
		c.idx = i
		if c.readyNow() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[0]
		if len(rdy) > 1 {
			i = rdy[w.Choose("select", uint64(len(rdy)))]
		}
		cases[i].base().fire()
		return i
	}
	if def {
		return -1
	}
	g := &selGroup{fired: -1}
	for _, a := range cases {
		c := a.base()
		if c.st == nil {
			continue
		}
		wt := &waiter{t: w.cur, cs: c, group: g}
		if c.send {
			c.st.sendq = append(c.st.sendq, wt)
		} else {
			c.st.recvq = append(c.st.recvq, wt)
		}
	}
	for !g.done {
		w.park("chan")
	}
	if g.fired < 0 {
		panic("rt: select woke without a case")
	}
	c := cases[g.fired].base()
	if c.send && c.st.closed && c.val == closedMark {
		panic("send on closed channel")
	}
	return g.fired
}

type closedT struct{}

var closedMark any = closedT{}

// S is the rewritten send statement: S(c)(v).
func S[T any, C ~chan T | ~chan<- T](c C) func(v T) {
	return func(v T) {
		if W == nil || W.cur == nil {
			bidi[T](c) <- v
			return
		}
		Select(false, CS[T](c).With(v))
	}
}
func Recv[T any, C ~chan T | ~<-chan T](c C) T {
	if W == nil || W.cur == nil {
		return <-bidi[T](c)
	}
	r := CR[T](c)
	Select(false, r)
	return r.Val()
}
func Recv2[T any, C ~chan T | ~<-chan T](c C) (T, bool) {
	if W == nil || W.cur == nil {
		v, ok := <-bidi[T](c)
		return v, ok
	}
	r := CR[T](c)
	Select(false, r)
	return r.Val2()
}

func Close[T any, C ~chan T | ~chan<- T](c C) {
	if W == nil {
		return
	}
	if W.cur != nil {
		W.Yield()
	}
	s := chanOf(bidi[T](c))
	if s == nil {
		panic("close of nil channel")
	}
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	for {
		x := popWaiter(&s.recvq)
		if x == nil {
			break
		}
		x.cs.val, x.cs.ok = nil, false
		x.group.done, x.group.fired = true, x.cs.idx
		W.ready(x.t)
	}
	for {
		x := popWaiter(&s.sendq)
		if x == nil {
			break
		}
		x.cs.val = closedMark
		x.group.done, x.group.fired = true, x.cs.idx
		W.ready(x.t)
	}
}

func Len[T any, C ~chan T | ~<-chan T | ~chan<- T](c C) int {
	if W == nil {
		return 0
	}
	s := chanOf(bidi[T](c))
	if s == nil {
		return 0
	}
	return len(s.buf)
}

// TrySend delivers v without blocking (for shims running on the scheduler, e.g. timers).
func TrySend[T any](c chan T, v T) bool {
	cs := CS[T](c).With(v)
	if cs.c.st == nil || cs.c.st.closed || !cs.c.readyNow() {
		return false
	}
	cs.c.fire()
	return true
}

// Drain empties a buffered channel.
func Drain[T any](c chan T) {
	if s := chanOf(c); s != nil {
		s.buf = nil
	}
}

// WaitQ is a queue of parked tasks, the building block of the sync shims.
type WaitQ struct {
	q       []*Task
	tickets []*Ticket
}

func (q *WaitQ) Wait(on string) {
	q.q = append(q.q, W.cur)
	W.park(on)
}

// Enqueue registers the current task without parking it yet.
func (q *WaitQ) Enqueue() *Ticket {
	t := &Ticket{t: W.cur}
	q.tickets = append(q.tickets, t)
	return t
}

// Ticket is a registration made by Enqueue.
type Ticket struct {
	t     *Task
	fired bool
}

// WaitQueued parks until the ticket is called.
func (q *WaitQ) WaitQueued(t *Ticket, on string) {
	for !t.fired {
		W.park(on)
	}
}
func (q *WaitQ) WakeOne() bool {
	for len(q.tickets) > 0 {
		t := q.tickets[0]
		q.tickets = q.tickets[1:]
		if t.t.done || t.t.killed {
			continue
		}
		t.fired = true
		W.ready(t.t)
		return true
	}

	for len(q.q) > 0 {
		t := q.q[0]
		q.q = q.q[1:]
		if t.done || t.killed {
			continue
		}
		W.ready(t)
		return true
	}
	return false
}
func (q *WaitQ) WakeAll() {
	for q.WakeOne() {
	}
}
func (q *WaitQ) Len() int { return len(q.q) }

// Dead reports whether a task can never run again.
func (t *Task) Dead() bool { return t == nil || t.done || t.killed || !t.Proc.Alive }

// CheckKilled ends the current task if its process was killed.
func CheckKilled() {
	if W != nil && W.cur != nil && W.cur.killed {
		runtime.Goexit()
	}
}

// InSim reports whether the caller runs as a simulated task.
func InSim() bool { return W != nil && W.cur != nil }

// SleepNS, AfterNS and friends are used by the shims.
type Timer = timer

func (t *timer) Stop() bool {
	if W == nil {
		return false
	}
	return t.stop(W)
}

// Park/Ready for shims.
func (w *World) Park(on string) { w.park(on) }
func (w *World) Ready(t *Task)  { w.ready(t) }

// NumCPU is fixed.
const NumCPU = 4

// CloseNow closes a channel without a preemption point (for shims).
func CloseNow[T any](c chan T) {
	if W == nil {
		return
	}
	cur := W.cur
	W.cur = nil
	defer func() { W.cur = cur }()
	Close(c)
}

// TrySendDir is TrySend for a send-only channel.
func TrySendDir[T any](c chan<- T, v T) bool { return TrySend(bidi[T](c), v) }
