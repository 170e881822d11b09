package rt

import "syscall"

// Signals.

// Notify registers a delivery function for the given signals (nil: all).
func (w *World) Notify(p *Proc, key any, sigs []string, deliver func(sig syscall.Signal)) {
	for _, h := range p.sigs {
		if h.key == key {
			for _, s := range sigs {
				h.sigs[s] = true
			}
			if sigs == nil {
				h.all = true
			}
			return
		}
	}
	h := &sigHandler{key: key, sigs: map[string]bool{}, deliver: deliver, all: sigs == nil}
	for _, s := range sigs {
		h.sigs[s] = true
	}
	p.sigs = append(p.sigs, h)
}

// StopNotify removes a registration.
func (w *World) StopNotify(p *Proc, key any) {
	var o []*sigHandler
	for _, h := range p.sigs {
		if h.key != key {
			o = append(o, h)
		}
	}
	p.sigs = o
}

// Ignore makes the process ignore signals.
func (w *World) Ignore(p *Proc, sigs []string) {
	for _, s := range sigs {
		if p.ignored == nil {
			p.ignored = map[string]bool{}
		}
		p.ignored[s] = true
	}
}

// Signal delivers sig to the process pid.
func (w *World) Signal(pid int, sig syscall.Signal) error {
	p := w.ProcByPid(pid)
	if p == nil {
		return syscall.ESRCH
	}
	if sig == 0 {
		return nil
	}
	w.Tracef("signal %v to %s pid %d", sig, p.Name, pid)
	if sig == syscall.SIGKILL {
		w.Kill(p)
		return nil
	}
	n := sig.String()
	hit := false
	for _, h := range p.sigs {
		if h.all || h.sigs[n] {
			hit = true
			h.deliver(sig)
		}
	}
	if hit || p.ignored[n] {
		return nil
	}
	switch sig {
	case syscall.SIGCHLD, syscall.SIGURG, syscall.SIGWINCH, syscall.SIGCONT:
		return nil
	}
	w.killProc(p, 128+int(sig), true)
	return nil
}
