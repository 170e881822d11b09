// Package sync replaces the standard package inside the simulation.
package sync

import (
	std "sync"

	"verif.local/sim/rt"
)

type Locker = std.Locker

// Mutex is a cooperative mutex. A lock held by a task that can never run again counts as free:
// every simulated process start is a fresh process image.
type Mutex struct {
	held  bool
	owner *rt.Task
	proc  *rt.Proc
	q     rt.WaitQ
}

func (m *Mutex) free() bool {
	return !m.held || m.proc == nil || !m.proc.Alive || m.proc.World() != rt.W
}
func (m *Mutex) take() {
	m.held = true
	if rt.InSim() {
		m.owner = rt.W.Cur()
		m.proc = m.owner.Proc
	}
}
func (m *Mutex) Lock() {
	if !rt.InSim() {
		m.held = true
		return
	}
	rt.W.Yield()
	for !m.free() {
		m.await()
		m.q.Wait("mutex")
	}
	m.take()
}

// await: a package-level mutex may be held by another simulated process; its end frees it.
func (m *Mutex) await() {
	if p := m.proc; p != nil && p != rt.W.Cur().Proc {
		p.OnExit = append(p.OnExit, func(*rt.Proc) { m.q.WakeAll() })
	}
}
func (m *Mutex) TryLock() bool {
	if !rt.InSim() {
		if m.held {
			return false
		}
		m.held = true
		return true
	}
	rt.W.Yield()
	if !m.free() {
		return false
	}
	m.take()
	return true
}
func (m *Mutex) Unlock() {
	rt.CheckKilled()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held, m.owner, m.proc = false, nil, nil
	if rt.InSim() {
		m.q.WakeOne()
		rt.W.Yield()
	}
}

// RWMutex has writer preference, as the real one.
type RWMutex struct {
	writer  bool
	wproc   *rt.Proc
	readers map[*rt.Proc]int
	pending int
	pproc   *rt.Proc
	q       rt.WaitQ
}

func alive(p *rt.Proc) bool { return p != nil && p.Alive && p.World() == rt.W }

func (m *RWMutex) wlocked() bool { return m.writer && alive(m.wproc) }
func (m *RWMutex) nread() int {
	n := 0
	for p, c := range m.readers {
		if alive(p) {
			n += c
		}
	}
	return n
}
func (m *RWMutex) anyPending() bool { return m.pending > 0 && alive(m.pproc) }

func (m *RWMutex) Lock() {
	if !rt.InSim() {
		m.writer = true
		return
	}
	rt.W.Yield()
	p := rt.W.Cur().Proc
	if m.pproc != p {
		m.pproc, m.pending = p, 0
	}
	m.pending++
	for m.wlocked() || m.nread() > 0 {
		m.q.Wait("rwmutex.Lock")
	}
	m.pending--
	m.writer, m.wproc = true, p
}
func (m *RWMutex) TryLock() bool {
	if !rt.InSim() {
		m.writer = true
		return true
	}
	rt.W.Yield()
	if m.wlocked() || m.nread() > 0 {
		return false
	}
	m.writer, m.wproc = true, rt.W.Cur().Proc
	return true
}
func (m *RWMutex) Unlock() {
	rt.CheckKilled()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer, m.wproc = false, nil
	if rt.InSim() {
		m.q.WakeAll()
		rt.W.Yield()
	}
}
func (m *RWMutex) RLock() {
	if !rt.InSim() {
		return
	}
	rt.W.Yield()
	for m.wlocked() || m.anyPending() {
		m.q.Wait("rwmutex.RLock")
	}
	m.rtake()
}
func (m *RWMutex) rtake() {
	if m.readers == nil {
		m.readers = map[*rt.Proc]int{}
	}
	m.readers[rt.W.Cur().Proc]++
}
func (m *RWMutex) TryRLock() bool {
	if !rt.InSim() {
		return true
	}
	rt.W.Yield()
	if m.wlocked() || m.anyPending() {
		return false
	}
	m.rtake()
	return true
}
func (m *RWMutex) RUnlock() {
	rt.CheckKilled()
	if !rt.InSim() {
		return
	}
	p := rt.W.Cur().Proc
	if m.readers[p] <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers[p]--
	if m.readers[p] == 0 {
		delete(m.readers, p)
	}
	m.q.WakeAll()
	rt.W.Yield()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct {
	n int
	q rt.WaitQ
}

func (g *WaitGroup) Add(d int) {
	rt.CheckKilled()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.q.WakeAll()
	}
	if rt.InSim() {
		rt.W.Yield()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if !rt.InSim() {
		return
	}
	rt.W.Yield()
	for g.n > 0 {
		g.q.Wait("waitgroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() {
		defer g.Done()
		f()
	})
}

type Cond struct {
	L Locker
	q rt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	// Registration happens before the lock is released, as in the real implementation.
	t := c.q.Enqueue()
	c.L.Unlock()
	c.q.WaitQueued(t, "cond")
	c.L.Lock()
}
func (c *Cond) Signal() {
	if rt.InSim() {
		rt.W.Yield()
	}
	c.q.WakeOne()
}
func (c *Cond) Broadcast() {
	if rt.InSim() {
		rt.W.Yield()
	}
	c.q.WakeAll()
}

// Pool never keeps anything across processes; Get reuses in LIFO order.
type Pool struct {
	New   func() any
	items []any
	w     *rt.World
	proc  *rt.Proc
}

func (p *Pool) cur() bool {
	var pr *rt.Proc
	if rt.InSim() {
		pr = rt.W.Cur().Proc
	}
	if p.w != rt.W || p.proc != pr {
		p.items, p.w, p.proc = nil, rt.W, pr
	}
	return true
}
func (p *Pool) Get() any {
	p.cur()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.cur()
	if len(p.items) < 64 {
		p.items = append(p.items, x)
	}
}

// Map keeps insertion order, so that Range is deterministic.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) { pt(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	pt()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	pt()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.store(k, v)
	return v, false
}
func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	pt()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	pt()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	pt()
	if v, ok := m.m[k]; ok && v == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.m, m.keys = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
func pt() {
	if rt.InSim() {
		rt.W.Yield()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
