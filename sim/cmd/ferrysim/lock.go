package main

import (
	"fmt"
	"strings"
	"syscall"
	"time"

	ferrydmain "github.com/getsolus/ferryd/src/ferryd"
	"github.com/getsolus/ferryd/src/libferry"

	"verif.local/sim/rt"
	simnet "verif.local/sim/shim/net"
	simos "verif.local/sim/shim/os"
)

func init() { specials["lock"] = lockMain }

// lockSim runs several daemons against one base directory.
type lockSim struct {
	r       *Run
	w       *rt.World
	rnd     *rt.Rand
	all     []*lproc
	by      map[*rt.Proc]*lproc
	op      *lproc // the daemon that works on the directory
	wakeAt  int
	ops     int
	killAt  int
	q       rt.WaitQ
	ackName []string
	stop    bool
	slow    bool
	busy    bool // the socket is somebody else's
	meta    float64
	denied  map[*lproc]bool // its socket cannot be protected
}

type lproc struct {
	p        *rt.Proc
	inhib    bool
	worked   bool // went past the lock
	replaced bool // another one took over
	termed   bool
	alone    bool // no other daemon while it lived
	rival    bool // another daemon was at work all its life
	changed  string
	startAt  int64
}

const lockPath = base + "/ferryd.lock"

func lockMain(r *Run) {
	l := &lockSim{r: r, w: r.w, rnd: rt.NewRand(r.p.Seed ^ 0x10c4), by: map[*rt.Proc]*lproc{}}
	w := r.w
	w.FS.Fault = l.fault
	w.FS.Observe = nil
	resetGlobals()
	l.slow = l.rnd.P(0.6)
	if l.denied = map[*lproc]bool{}; l.rnd.P(0.3) {
		l.meta = 0.3
	}
	if l.rnd.P(0.5) {
		l.plantLock()
	}
	w.Spawn(w.HarnessP, "client", l.client)
	n := 3 + r.p.N/4
	for i := 0; i < n; i++ {
		l.action()
		l.pause()
	}
	l.killAt = 0
	l.quiesce()
	// Everybody out.
	for _, p := range l.all {
		if p.p.Alive {
			if l.rnd.P(0.5) {
				l.term(p)
			} else {
				w.Kill(p.p)
			}
		}
	}
	l.waitExits()
	if l.rnd.P(0.5) {
		l.plantLock()
	}
	if r.heldSock == nil && l.rnd.P(0.25) {
		l.foreign()
	}
	// The lock of a dead daemon never prevents a start.
	p := l.start()
	l.stop = true
	l.mustServe(p, "the last daemon")
	l.checkAcked(p)
	l.term(p)
	l.waitExits()
	r.stats["checks"]++
}

// foreign: some other program listens on the socket; it keeps it.
func (l *lockSim) foreign() {
	simos.Remove(sock)
	h := simnet.ListenHeld(sock)
	h.Full = l.rnd.P(0.5)
	l.slow, l.busy = false, true
	p := l.start()
	t0 := l.w.Now()
	for p.p.Alive && l.w.Now()-t0 < 8*sec {
		l.w.Sleep(sec / 10)
	}
	if h.Closed || l.w.FS.Lookup(sock) != h.Node {
		l.r.fail([]string{"C19"}, "stolen", "a starting daemon took away the socket that another program listens on")
	}
	if p.p.Alive {
		l.w.Kill(p.p)
	}
	h.Closed = true
	simos.Remove(sock)
	l.busy = false
	l.r.stats["foreign"]++
}

func (l *lockSim) alive() []*lproc {
	var a []*lproc
	for _, p := range l.all {
		if p.p.Alive {
			a = append(a, p)
		}
	}
	return a
}

// plantLock leaves a lock file as a dead daemon might have.
func (l *lockSim) plantLock() {
	if len(l.alive()) > 0 {
		return
	}
	c := []string{"1", "399", "400", "401", "402", "31999", "4294967296", "-1", "0", "", "nonsense", "400\n", " 12", "99999999999999999999999"}
	simos.WriteFile(lockPath, []byte(c[l.rnd.Intn(len(c))]), 0o644)
	l.w.Stats["fault.stalelock"]++
}

func (l *lockSim) pause() {
	switch l.rnd.Intn(6) {
	case 0:
	case 1:
		l.w.Sleep(int64(l.rnd.Intn(400)) * 1000)
	case 2:
		l.w.Sleep(int64(l.rnd.Intn(20)) * int64(time.Millisecond))
	case 3:
		l.w.Sleep(int64(l.rnd.Intn(6000)) * int64(time.Millisecond))
	default:
		l.waitOps(1 + l.rnd.Intn([]int{4, 12, 40, 120}[l.rnd.Intn(4)]))
	}
}

// waitOps waits until the daemons have done n more file operations.
func (l *lockSim) waitOps(n int) {
	l.wakeAt = l.ops + n
	t := l.w.After(3*sec, func() { l.q.WakeAll() })
	l.q.Wait("operations")
	t.Stop()
	l.wakeAt = 0
}

func (l *lockSim) action() {
	a := l.alive()
	x := l.rnd.Intn(10)
	switch {
	case len(a) == 0 || x < 4 && len(a) < 4:
		if len(a) == 0 && l.rnd.P(0.2) {
			l.plantLock()
		}
		if l.rnd.P(0.3) {
			n := 396 + l.rnd.Intn(8)
			if l.w.ProcByPid(n) == nil {
				l.w.SetNextPid(n)
			}
		}
		l.start()
	case x < 6:
		l.term(a[l.rnd.Intn(len(a))])
	case x < 7:
		l.w.Stats["fault.kill"]++
		l.w.Kill(a[l.rnd.Intn(len(a))].p)
	case x < 8:
		l.killAt = l.ops + 1 + l.rnd.Intn([]int{4, 20, 80}[l.rnd.Intn(3)])
	case x < 9:
		l.quiesce()
	default:
		l.w.Sleep(sec)
	}
}

func (l *lockSim) start() *lproc {
	w := l.w
	others := l.alive()
	if len(others) == 0 {
		resetGlobals()
	}
	daemonArgs(l.r.p)
	for w.ProcByPid(w.PeekPid()) != nil {
		w.NextPid()
	}
	p := w.NewProc("ferryd")
	if h := l.r.heldSock; h != nil {
		p.Env["LISTEN_FDS"] = "1"
		p.Env["LISTEN_PID"] = fmt.Sprint(p.Pid)
		p.Listener = h.Inherit()
	}
	lp := &lproc{p: p, alone: len(others) == 0, startAt: w.Now(), inhib: true}
	for _, o := range others {
		o.alone = false
	}
	lp.rival = l.op != nil && l.op.p.Alive && !l.op.termed
	l.all = append(l.all, lp)
	l.by[p] = lp
	w.Inhibit++
	p.OnExit = append(p.OnExit, func(*rt.Proc) { l.exited(lp) })
	w.Spawn(p, "main", func() { ferrydmain.VerifMain(); w.Exit(p, 0) })
	l.r.stats["starts"]++
	w.Tracef("start of ferryd pid %d", p.Pid)
	w.MixCoarse(fmt.Sprintf("start %d", len(others)))
	// The flags are package variables: let it parse them before anybody else starts.
	for lp.inhib && p.Alive {
		w.Sleep(1000)
	}
	return lp
}

func (l *lockSim) release(lp *lproc) {
	if lp.inhib {
		lp.inhib = false
		l.w.Inhibit--
	}
}

func (l *lockSim) exited(lp *lproc) {
	p := lp.p
	l.release(lp)
	l.q.WakeAll()
	if l.op != lp {
		if l.op == nil || !l.op.p.Alive {
			lp.rival = false
		}
	}
	l.w.MixCoarse(fmt.Sprintf("exit %v %v %v %d", lp.worked, lp.termed, p.Killed, p.ExitCode))
	if l.r.ending || p.Killed {
		return
	}
	if p.Panic != "" {
		t := []string{"C19", "?C17"}
		if lp.termed {
			t = append(t, "C18")
		}
		l.r.fail(t, "panic", "the daemon crashed: %s\n%s", p.Panic, trimStack(p.Stack))
		return
	}
	if lp.termed || l.busy || l.denied[lp] {
		return
	}
	l.r.stats["refused"]++
	if lp.alone {
		l.r.fail([]string{"C19"}, "refused", "the only daemon for the directory ended by itself with code %d: %s", p.ExitCode, strings.TrimSpace(p.Out))
		return
	}
	if lp.worked {
		if lp.rival {
			return // judged as overlap
		}
		l.r.fail([]string{"C19", "?C17"}, "ended", "a daemon that had taken the lock ended by itself with code %d: %s", p.ExitCode, strings.TrimSpace(p.Out))
		return
	}
	if p.ExitCode == 0 {
		l.r.fail([]string{"C19"}, "exitcode", "a daemon that did not get the lock ended with code 0")
	}
	if lp.changed != "" {
		l.r.fail([]string{"C19"}, "harm", "a daemon that did not get the lock changed things: %s", lp.changed)
	}
}

// fault sees every file operation of the daemons.
func (l *lockSim) fault(op *rt.Op) *rt.Verdict {
	lp := l.by[op.Proc]
	if lp == nil {
		return nil
	}
	l.release(lp)
	l.ops++
	if l.wakeAt > 0 && l.ops >= l.wakeAt {
		l.wakeAt = 0
		l.q.WakeAll()
	}
	own := strings.HasPrefix(op.Path, base+"/") && op.Path != lockPath && !strings.HasSuffix(op.Path, "ferryd.log") || strings.HasPrefix(op.Path, "/run/")
	if own && !lp.replaced && l.op != lp {
		old := l.op
		if old != nil && old.p.Alive {
			if !old.termed {
				l.r.fail([]string{"C19"}, "overlap", "the daemon with pid %d works on the directory (%s %s) while the one with pid %d is running", lp.p.Pid, op.Kind, op.Path, old.p.Pid)
			}
			old.replaced = true
		}
		l.op, lp.worked = lp, true
		l.w.MixCoarse("operator")
	} else if own && lp.replaced {
		l.r.fail([]string{"C19"}, "overlap", "the daemon with pid %d works on the directory (%s %s) although the one with pid %d has taken over", lp.p.Pid, op.Kind, op.Path, l.op.p.Pid)
	}
	if op.Mut && !lp.worked && op.Path == lockPath && op.Kind != "create" && op.Kind != "open" && op.Kind != "lock" && l.op != nil && l.op.p.Alive && lp.rival {
		lp.changed = op.Kind + " " + op.Path
	}
	if op.Kind == "chmod" && op.Path == sock && !l.stop && l.rnd.P(l.meta) {
		l.w.Stats["fault.eperm"]++
		l.denied[lp] = true
		return &rt.Verdict{Err: []error{syscall.EPERM, syscall.EIO, syscall.EROFS}[l.rnd.Intn(3)]}
	}
	if hot := op.Path == lockPath || op.Path == sock; l.slow && !l.stop && (hot && l.rnd.P(0.15) || l.rnd.P(0.002)) {
		l.w.Stats["fault.stall"]++
		return &rt.Verdict{Stall: int64(1+l.rnd.Intn([]int{5, 100, 3000}[l.rnd.Intn(3)])) * int64(time.Millisecond)}
	}
	if l.killAt > 0 && l.ops >= l.killAt {
		l.killAt = 0
		l.w.Stats["fault.kill"]++
		if l.rnd.P(0.5) {
			return &rt.Verdict{KillAfter: true}
		}
		return &rt.Verdict{KillBefore: true}
	}
	return nil
}

func (l *lockSim) term(lp *lproc) {
	lp.termed = true
	s := syscall.SIGTERM
	if l.rnd.P(0.3) {
		s = syscall.SIGINT
	}
	l.w.Stats["fault.term"]++
	l.w.Signal(lp.p.Pid, s)
}

// waitExits waits for the daemons that were asked to stop.
func (l *lockSim) waitExits() {
	t0 := l.w.Now()
	for _, p := range l.all {
		for p.termed && p.p.Alive {
			if l.w.Now()-t0 > 90*sec {
				l.r.fail([]string{"C18", "C17", "C19"}, "noexit", "the daemon has not ended 90 s after the signal: %s", strings.Join(l.w.TaskList(), "; "))
				return
			}
			l.w.Sleep(sec / 10)
		}
	}
}

// quiesce lets starting and stopping daemons finish; then at most one is there and it serves.
func (l *lockSim) quiesce() {
	l.waitExits()
	k := l.killAt
	l.killAt = 0
	t0 := l.w.Now()
	for {
		a := l.alive()
		if len(a) == 0 {
			break
		}
		if len(a) == 1 && l.w.Now()-t0 > sec {
			l.mustServe(a[0], "the daemon left over")
			break
		}
		if l.w.Now()-t0 > 20*sec {
			l.r.fail([]string{"C19"}, "several", "%d daemons run on the same directory", len(a))
			return
		}
		l.w.Sleep(sec / 10)
	}
	l.killAt = k
	l.r.stats["checks"]++
}

func (l *lockSim) mustServe(p *lproc, what string) {
	t0 := l.w.Now()
	for p.p.Alive {
		c := libferry.NewClient(sock)
		_, err := c.GetStatus()
		c.Close()
		if err == nil {
			return
		}
		if p.p.Alive && l.w.Now()-t0 > 20*sec {
			l.r.fail([]string{"C19", "?C17"}, "noserve", "%s does not answer: %v (%s)", what, err, strings.Join(l.w.TaskList(), "; "))
			return
		}
		l.w.Sleep(sec / 5)
	}
	if !p.termed && !p.p.Killed && p.alone && !l.denied[p] {
		l.r.fail([]string{"C19"}, "refused", "%s ended by itself with code %d: %s", what, p.p.ExitCode, strings.TrimSpace(p.p.Out))
	}
}

// client asks for repositories all the time.
func (l *lockSim) client() {
	for i := 0; !l.stop; i++ {
		if len(l.alive()) > 0 && !l.busy {
			c := libferry.NewClient(sock)
			n := fmt.Sprintf("r%d", i)
			if c.CreateRepo(n) == nil {
				l.ackName = append(l.ackName, n)
			}
			c.Close()
		}
		l.w.Sleep(int64(1+l.rnd.Intn(4)) * sec / 2)
	}
}

// checkAcked: what any daemon has accepted is done in the end.
func (l *lockSim) checkAcked(p *lproc) {
	t0 := l.w.Now()
	for {
		c := libferry.NewClient(sock)
		have, err := c.GetRepos()
		st, err2 := c.GetStatus()
		c.Close()
		if !p.p.Alive {
			return
		}
		miss := ""
		if err == nil && err2 == nil {
			m := map[string]bool{}
			for _, n := range have {
				m[n] = true
			}
			for _, n := range l.ackName {
				if !m[n] {
					miss = n
				}
			}
			if miss == "" {
				return
			}
			if len(st.CurrentJobs) == 0 {
				l.r.fail([]string{"C01", "C19", "?C18"}, "lostjob", "the request to create '%s' was accepted, but it is neither there nor queued", miss)
				return
			}
		}
		if l.w.Now()-t0 > int64(len(l.ackName)+10)*6*sec {
			l.r.fail([]string{"C17"}, "slow", "the jobs are not done: %v %v", err, err2)
			return
		}
		l.w.Sleep(sec)
	}
}
