// Package context replaces the standard package inside the simulation.
package context

import (
	std "context"
	stdtime "time"

	"verif.local/sim/rt"
	"verif.local/sim/shim/time"
)

type ctx struct {
	std.Context
	done  chan struct{}
	err   error
	cause error
	dl    stdtime.Time
	hasDL bool
	kids  []*ctx
	up    *ctx
	timer *time.Timer
	after []func()
}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { return c.err }
func (c *ctx) Deadline() (stdtime.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.Context.Deadline()
}

type keyT struct{}

var key keyT

func (c *ctx) Value(k any) any {
	if k == any(&key) {
		return c
	}
	return c.Context.Value(k)
}

func parentOf(p std.Context) *ctx {
	c, _ := p.Value(&key).(*ctx)
	return c
}

func newCtx(parent std.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p := parentOf(parent); p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
			c.up = p
		}
	}
	return c
}
func (c *ctx) cancel(err, cause error) {
	rt.CheckKilled()
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.timer != nil {
		c.timer.Stop()
	}
	rt.CloseNow(c.done)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	c.kids = nil
	for _, f := range c.after {
		rt.Go(f)
	}
	if c.up != nil {
		for i, k := range c.up.kids {
			if k == c {
				c.up.kids = append(c.up.kids[:i:i], c.up.kids[i+1:]...)
				break
			}
		}
	}
}

func WithCancel(parent std.Context) (std.Context, std.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(std.Canceled, nil) }
}
func WithCancelCause(parent std.Context) (std.Context, std.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(std.Canceled, cause) }
}
func Cause(c std.Context) error {
	if x := parentOf(c); x != nil {
		return x.cause
	}
	return c.Err()
}
func WithDeadline(parent std.Context, d stdtime.Time) (std.Context, std.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithDeadlineCause(parent std.Context, d stdtime.Time, cause error) (std.Context, std.CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.dl, c.hasDL = d, true
		if c.err == nil {
			left := d.Sub(time.Now())
			if left <= 0 {
				c.cancel(std.DeadlineExceeded, cause)
			} else {
				c.timer = time.AfterFunc(left, func() { c.cancel(std.DeadlineExceeded, cause) })
			}
		}
	}
	return c, func() { c.cancel(std.Canceled, nil) }
}
func WithTimeout(parent std.Context, d stdtime.Duration) (std.Context, std.CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}
func WithTimeoutCause(parent std.Context, d stdtime.Duration, cause error) (std.Context, std.CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), cause)
}
func AfterFunc(c std.Context, f func()) func() bool {
	x := parentOf(c)
	if x == nil {
		return func() bool { return true }
	}
	if x.err != nil {
		rt.Go(f)
		return func() bool { return false }
	}
	ran, stopped := false, false
	x.after = append(x.after, func() {
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool { s := !ran && !stopped; stopped = true; return s }
}

type noCancel struct{ std.Context }

func (noCancel) Deadline() (t stdtime.Time, ok bool) { return }
func (noCancel) Done() <-chan struct{}               { return nil }
func (noCancel) Err() error                          { return nil }
func (n noCancel) Value(k any) any {
	if k == any(&key) {
		return nil
	}
	return n.Context.Value(k)
}
func WithoutCancel(p std.Context) std.Context { return noCancel{p} }
