// Package daemon replaces coreos/go-systemd daemon inside the simulation.
package daemon

import "verif.local/sim/rt"

const (
	SdNotifyReady     = "READY=1"
	SdNotifyStopping  = "STOPPING=1"
	SdNotifyReloading = "RELOADING=1"
	SdNotifyWatchdog  = "WATCHDOG=1"
)

// SdNotify records the notification.
func SdNotify(unset bool, state string) (bool, error) {
	p := rt.W.Cur().Proc
	p.Data["notify"] = state
	return true, nil
}
