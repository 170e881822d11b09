// Package runtime replaces the standard package inside the simulation.
package runtime

import (
	std "runtime"

	"verif.local/sim/rt"
)

func Gosched() {
	if rt.InSim() {
		rt.W.Yield()
	}
}
func SetFinalizer(obj, f any) {}
func NumCPU() int             { return rt.NumCPU }
func GOMAXPROCS(n int) int    { return rt.NumCPU }
func NumGoroutine() int       { return 1 }
func GC()                     {}
func Goexit()                 { std.Goexit() }
