package main

import (
	"fmt"
	"strings"
	"syscall"

	"verif.local/sim/rt"
)

// spec is what the scenarios that drive parts of the program share: one process under test
// and faults at counted file operations.
type spec struct {
	r     *Run
	w     *rt.World
	rnd   *rt.Rand
	p     *rt.Proc
	ops   int
	killN int // kill at the killN-th operation from now
	errN  int // fail from the errN-th on
	errC  int // so many
	err   error
	reads bool // read operations too
	fired int  // faults that hit
	only  func(op *rt.Op) bool
	see   func(op *rt.Op)
	what  string
	tags  []string
}

func newSpec(r *Run, salt uint64, tags ...string) *spec {
	s := &spec{r: r, w: r.w, rnd: rt.NewRand(r.p.Seed ^ salt), tags: tags}
	r.w.FS.Fault = s.fault
	r.w.FS.Observe = nil
	return s
}

func (s *spec) fault(op *rt.Op) *rt.Verdict {
	if s.p == nil || op.Proc != s.p || !s.p.Alive {
		return nil
	}
	if s.see != nil {
		s.see(op)
	}
	if !op.Mut && op.Kind != "exec" && !(s.reads && (op.Kind == "read" || op.Kind == "open")) {
		return nil
	}
	if s.only != nil && !s.only(op) {
		return nil
	}
	s.ops++
	if s.killN > 0 {
		if s.killN--; s.killN == 0 {
			s.w.Stats["fault.kill"]++
			if op.Kind == "exec" && s.rnd.P(0.6) { // while the tool writes
				return &rt.Verdict{Short: 2, KillAfter: true}
			}
			v := &rt.Verdict{KillBefore: true}
			switch s.rnd.Intn(3) {
			case 0:
				v = &rt.Verdict{KillAfter: true}
			case 1:
				if op.Kind == "write" && op.N > 1 {
					v.KillShort = 1 + s.rnd.Intn(op.N-1)
				}
			}
			return v
		}
	}
	if s.errN > 0 {
		if s.errN > 1 {
			s.errN--
			return nil
		}
		if s.errC--; s.errC <= 0 {
			s.errN = 0
		}
		s.fired++
		if op.Kind == "exec" {
			s.w.Stats["fault.tool"]++
			return []*rt.Verdict{{Err: syscall.ENOMEM}, {Short: 1}, {Short: 2}}[s.rnd.Intn(3)]
		}
		s.w.Stats["fault.eio"]++
		v := &rt.Verdict{Err: s.err}
		if op.Kind == "write" && op.N > 1 && s.rnd.P(0.4) {
			v.Short = 1 + s.rnd.Intn(op.N-1)
			s.w.Stats["fault.short"]++
		}
		s.w.Tracef("fault: %v on %s %s", s.err, op.Kind, op.Path)
		return v
	}
	return nil
}

// arm draws the disturbances of the next phase.
func (s *spec) arm(kill, io float64, span int) {
	s.killN, s.errN = 0, 0
	if s.rnd.P(kill) {
		s.killN = 1 + s.rnd.Intn(span)
	}
	if s.rnd.P(io) {
		s.errN, s.errC = 1+s.rnd.Intn(span), 1+s.rnd.Intn(3)
		s.err = []error{syscall.EIO, syscall.ENOSPC, syscall.EIO}[s.rnd.Intn(3)]
		s.reads = s.rnd.P(0.4)
	}
}

func (s *spec) disarm() { s.killN, s.errN = 0, 0 }

// proc starts a process that runs f and waits until it has ended.
func (s *spec) proc(f func(p *rt.Proc), limit int64) bool {
	resetGlobals()
	p := s.w.NewProc("ferryd")
	s.p = p
	var q rt.WaitQ
	p.OnExit = append(p.OnExit, func(p *rt.Proc) {
		if p.Panic != "" && !s.r.ending {
			s.r.fail(s.tags, "panic", "crash: %s\n%s", p.Panic, trimStack(p.Stack))
		}
		q.WakeAll()
	})
	s.w.Spawn(p, "main", func() { f(p); s.w.Exit(p, 0) })
	t0 := s.w.Now()
	for p.Alive {
		t := s.w.After(5*sec, func() { q.WakeAll() })
		q.Wait("process")
		t.Stop()
		if p.Alive && s.w.Now()-t0 > limit {
			s.r.fail(append([]string{"C17"}, s.tags...), "stuck", "%s has not ended after %d s: %s", s.what, limit/sec, strings.Join(s.w.TaskList(), "; "))
			return false
		}
	}
	return s.r.viol == nil
}

// group runs tasks inside the process and waits for them.
type group struct {
	s *spec
	n int
	q rt.WaitQ
}

func (g *group) goRun(name string, f func()) {
	g.n++
	g.s.w.Spawn(g.s.p, name, func() {
		f()
		if g.n--; g.n == 0 {
			g.q.WakeAll()
		}
	})
}

func (g *group) wait() {
	for g.n > 0 {
		g.q.Wait(fmt.Sprintf("group of %d", g.n))
	}
}
