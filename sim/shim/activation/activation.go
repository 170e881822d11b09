// Package activation replaces coreos/go-systemd activation inside the simulation.
package activation

import (
	"net"

	"verif.local/sim/rt"
)

// Listeners returns the inherited listeners of the process.
func Listeners() ([]net.Listener, error) {
	p := rt.W.Cur().Proc
	if p.Env["LISTEN_FDS"] == "" {
		return nil, nil
	}
	delete(p.Env, "LISTEN_PID")
	delete(p.Env, "LISTEN_FDS")
	delete(p.Env, "LISTEN_FDNAMES")
	if l, ok := p.Listener.(net.Listener); ok {
		return []net.Listener{l}, nil
	}
	return nil, nil
}
