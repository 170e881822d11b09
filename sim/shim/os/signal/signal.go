// Package signal replaces the standard package inside the simulation.
package signal

import (
	"context"
	stdos "os"
	"syscall"

	"verif.local/sim/rt"
	simctx "verif.local/sim/shim/context"
)

func names(sig []stdos.Signal) []string {
	var out []string
	for _, s := range sig {
		out = append(out, s.String())
	}
	return out
}
func Notify(c chan<- stdos.Signal, sig ...stdos.Signal) {
	if !rt.InSim() {
		return
	}
	rt.W.Notify(rt.W.Cur().Proc, c, names(sig), func(s syscall.Signal) { rt.TrySendDir[stdos.Signal](c, s) })
}
func Stop(c chan<- stdos.Signal) {
	if rt.InSim() {
		rt.W.StopNotify(rt.W.Cur().Proc, c)
	}
}
func Ignore(sig ...stdos.Signal) {
	if rt.InSim() {
		rt.W.Ignore(rt.W.Cur().Proc, names(sig))
	}
}
func Reset(sig ...stdos.Signal)     {}
func Ignored(sig stdos.Signal) bool { return false }
func NotifyContext(parent context.Context, sig ...stdos.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := simctx.WithCancel(parent)
	if rt.InSim() {
		p := rt.W.Cur().Proc
		rt.W.Notify(p, ctx, names(sig), func(s syscall.Signal) { rt.W.Spawn(p, "signal", cancel) })
	}
	return ctx, cancel
}
