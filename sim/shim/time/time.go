// Package time replaces the standard package inside the simulation.
package time

import (
	std "time"

	"verif.local/sim/rt"
)

func Now() Time {
	if !rt.InSim() {
		return rt.Epoch
	}
	return rt.W.WallNow()
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	if !rt.InSim() {
		return
	}
	rt.W.Sleep(int64(d))
}

type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	p  *rt.Proc
	t  *rt.Timer
	pd Duration
}

func (t *Timer) fire() {
	if t.p != nil && !t.p.Alive {
		return
	}
	if t.f != nil {
		rt.W.Spawn(t.p, "timerfunc", t.f)
		return
	}
	rt.TrySend(t.c, rt.W.WallNow())
}
func (t *Timer) start(d Duration) {
	if !rt.InSim() {
		return
	}
	rt.CheckKilled()
	t.p = rt.W.Cur().Proc
	t.t = rt.W.After(int64(d), t.fire)
}
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
func (t *Timer) Stop() bool {
	rt.CheckKilled()
	if t.t == nil {
		return false
	}
	return t.t.Stop()
}
func (t *Timer) Reset(d Duration) bool {
	a := t.Stop()
	t.start(d)
	return a
}
func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C <-chan Time
	c chan Time
	d Duration
	p *rt.Proc
	t *rt.Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.Reset(d)
	return t
}
func (t *Ticker) fire() {
	if !t.p.Alive {
		return
	}
	rt.TrySend(t.c, rt.W.WallNow())
	t.t = rt.W.After(int64(t.d), t.fire)
}
func (t *Ticker) Reset(d Duration) {
	if !rt.InSim() {
		return
	}
	rt.CheckKilled()
	if t.t != nil {
		t.t.Stop()
	}
	t.p, t.d = rt.W.Cur().Proc, d
	t.t = rt.W.After(int64(d), t.fire)
}
func (t *Ticker) Stop() {
	rt.CheckKilled()
	if t.t != nil {
		t.t.Stop()
	}
}
func Tick(d Duration) <-chan Time { return NewTicker(d).C }

var Local = std.UTC
