// Package rt is the deterministic simulation runtime: a cooperative scheduler over real
// goroutines that are parked and released one at a time, a simulated clock, simulated
// processes, and a single stream of recorded choices.
package rt

import (
	"container/heap"
	"fmt"
	"io/fs"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"syscall"
	"time"
)

// Epoch is the simulated wall clock at the start of every run.
var Epoch = time.Date(2026, 3, 1, 12, 0, 0, 0, time.UTC)

// DumpStacks writes the stacks of all tasks to a file when a run gets stuck.
var DumpStacks = false

type Task struct {
	ID     int
	Proc   *Proc
	Name   string
	wake   chan struct{}
	queued bool // in the run queue
	killed bool
	done   bool
	// What the task is parked on, for deadlock reports.
	On string
	// Result slot used by channel operations.
	sel *waiter
}

type Proc struct {
	Pid      int
	Name     string
	tasks    map[*Task]bool
	Alive    bool
	ExitCode int
	Killed   bool
	Panic    string // non-empty when the process died of a panic
	Stack    string
	ExitAt   int64
	Env      map[string]string
	FDs      map[int]*OpenFile
	nextFD   int
	sigs     []*sigHandler
	OnExit   []func(p *Proc)
	Data     map[string]any
	Listener any // inherited (socket-activated) listener
	resident map[any]bool
	world    *World
	Out      string // standard output and error
	ErrOut   string // standard error
	maps     map[uintptr]int
	ignored  map[string]bool
}

// World returns the simulation the process belongs to.
func (p *Proc) World() *World { return p.world }

type sigHandler struct {
	key     any
	deliver func(sig syscall.Signal)
	sigs    map[string]bool
	all     bool
}

type timer struct {
	at    int64
	seq   uint64
	f     func()
	index int
	dead  bool
	proc  *Proc
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].index = i; h[j].index = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.index = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	n := len(o)
	t := o[n-1]
	*h = o[:n-1]
	t.index = -1
	return t
}

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }
func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Float() float64   { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) P(p float64) bool { return r.Float() < p }
func (r *Rand) Fork(k uint64) *Rand {
	n := NewRand(r.s ^ (k * 0xD1342543DE82EF95))
	n.U64()
	return n
}

// Decision is one recorded non-default choice.
type Decision struct {
	K string `json:"k"` // kind
	I uint64 `json:"i"` // index within the kind
	V uint64 `json:"v"` // value
}

type Config struct {
	Seed     uint64
	Replay   bool
	Log      []Decision // for replay
	PreemptN int        // mean number of yield points between preemptions; 0: never
	PickP    float64    // probability of a random rather than FIFO pick
	MaxSteps uint64
}

type World struct {
	cfg        Config
	now        int64         // monotonic simulated nanoseconds
	OnWatchErr []func() bool // report an error of the file watchers
	WallOff    int64
	runq       []*Task
	cur        *Task
	timers     timerHeap
	seq        uint64
	tasks      map[*Task]bool
	nextTask   int
	Procs      []*Proc
	nextPid    int
	HarnessP   *Proc

	rngs    map[string]*Rand
	counts  map[string]uint64
	replay  map[string]map[uint64]uint64
	Log     []Decision
	Yields  uint64
	nextPre uint64
	Steps   uint64
	hash    uint64
	hash2   uint64 // coarse (schedule-insensitive to pure yields) hash

	stop     bool
	stopWhy  string
	AtStop   []string // the tasks at the time of such an end
	finished chan struct{}
	chans    map[chanKey]*chanState
	FS       *FS
	Trace    []string
	TraceOn  bool
	Inhibit  int // >0: no preemption (harness critical sections)

	// Fatal is set when the simulator itself is misused (never a property violation).
	Fatal    string
	killAck  chan struct{}
	AtKill   func(p *Proc)
	Switches uint64
	Stats    map[string]int
	KillRate func() bool
	tempN    int

	// OnHandlerPanic is told about panics that net/http would swallow.
	OnHandlerPanic func(what string)

	// OnAccept sees every connection a process takes from a socket.
	OnAccept func(p *Proc, path string, n *Inode)
	Umask    fs.FileMode
	Uid, Gid int // of the processes
	DirGid   int // of new sockets, as in a set-group-ID directory
	// OnWeb answers the requests sent to the outside world.
	OnWeb func(c *WebCall)
	// OnWebEnd is told how the attempts of a request ended.
	OnWebEnd func(c *WebCall, err error)
}

// WebCall is one request to the outside world and its answer.
type WebCall struct {
	Method, URL, Auth string
	Body              []byte

	Wait    int64 // before the answer
	Forever bool  // there is none
	Err     error
	Code    int
	Reply   []byte
	Data    any
}

var W *World

const (
	noCap = 1 << 20
)

func NewWorld(cfg Config) *World {
	w := &World{cfg: cfg, tasks: map[*Task]bool{}, rngs: map[string]*Rand{}, counts: map[string]uint64{}, finished: make(chan struct{}),
		chans: map[chanKey]*chanState{}, nextPid: 1, hash: 14695981039346656037, hash2: 14695981039346656037, Stats: map[string]int{}}
	if cfg.Replay {
		w.replay = map[string]map[uint64]uint64{}
		for _, d := range cfg.Log {
			m := w.replay[d.K]
			if m == nil {
				m = map[uint64]uint64{}
				w.replay[d.K] = m
			}
			m[d.I] = d.V
		}
	}
	w.FS = newFS(w)
	W = w
	w.HarnessP = w.NewProc("harness")
	w.schedNextPreempt()
	return w
}

func (w *World) rng(kind string) *Rand {
	r := w.rngs[kind]
	if r == nil {
		h := uint64(14695981039346656037)
		for i := 0; i < len(kind); i++ {
			h = (h ^ uint64(kind[i])) * 1099511628211
		}
		r = NewRand(w.cfg.Seed ^ h)
		r.U64()
		w.rngs[kind] = r
	}
	return r
}

// Choose returns a value in [0,n); 0 is the default (least disruptive) choice.
func (w *World) Choose(kind string, n uint64) uint64 {
	i := w.counts[kind]
	w.counts[kind] = i + 1
	var v uint64
	if w.cfg.Replay {
		v = w.replay[kind][i]
		if n > 0 && v >= n {
			v %= n
		}
	} else if n > 1 {
		v = w.rng(kind).U64() % n
	}
	if v != 0 {
		w.Log = append(w.Log, Decision{kind, i, v})
	}
	return v
}

// Chance returns true with probability p (false by default on replay).
func (w *World) Chance(kind string, p float64) bool {
	i := w.counts[kind]
	w.counts[kind] = i + 1
	var v bool
	if w.cfg.Replay {
		v = w.replay[kind][i] != 0
	} else if p > 0 {
		v = w.rng(kind).P(p)
	}
	if v {
		w.Log = append(w.Log, Decision{kind, i, 1})
	}
	return v
}

func (w *World) schedNextPreempt() {
	if w.cfg.Replay {
		w.nextPre = 0
		return
	}
	if w.cfg.PreemptN <= 0 {
		w.nextPre = ^uint64(0)
		return
	}
	r := w.rng("preempt")
	// geometric-ish with heavy tail: mix of short bursts and long gaps
	n := uint64(1)
	switch r.Intn(4) {
	case 0:
		n += uint64(r.Intn(4))
	default:
		n += uint64(r.Intn(2 * w.cfg.PreemptN))
	}
	w.nextPre = w.Yields + n
}

func (w *World) note(v uint64) { w.hash = (w.hash ^ v) * 1099511628211 }

// Mix adds an observation to the run's trace hash.
func (w *World) Mix(s string) {
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
	}
	w.hash = (w.hash ^ 0xff) * 1099511628211
}
func (w *World) MixCoarse(s string) {
	for i := 0; i < len(s); i++ {
		w.hash2 = (w.hash2 ^ uint64(s[i])) * 1099511628211
	}
	w.hash2 = (w.hash2 ^ 0xff) * 1099511628211
}
func (w *World) Hash() uint64       { return w.hash }
func (w *World) CoarseHash() uint64 { return w.hash2 }
func (w *World) Now() int64         { return w.now }
func (w *World) Cur() *Task         { return w.cur }

func (w *World) Tracef(f string, a ...any) {
	if w.TraceOn {
		w.Trace = append(w.Trace, fmt.Sprintf("%12.6f ", float64(w.now)/1e9)+fmt.Sprintf(f, a...))
	}
}

// NewProc makes a simulated process without tasks.
func (w *World) NewProc(name string) *Proc {
	p := &Proc{world: w, Pid: w.nextPid, Name: name, tasks: map[*Task]bool{}, Alive: true, Env: map[string]string{}, FDs: map[int]*OpenFile{}, nextFD: 1003, Data: map[string]any{}}
	w.nextPid++
	w.Procs = append(w.Procs, p)
	return p
}

// SetNextPid forces the next process id (pid reuse and different lengths).
func (w *World) SetNextPid(n int) { w.nextPid = n }

// PeekPid is the process id the next process gets.
func (w *World) PeekPid() int { return w.nextPid }

func (w *World) ProcByPid(pid int) *Proc {
	for i := len(w.Procs) - 1; i >= 0; i-- {
		if p := w.Procs[i]; p.Pid == pid && p.Alive {
			return p
		}
	}
	return nil
}

// Spawn starts a task in process p.
func (w *World) Spawn(p *Proc, name string, f func()) *Task {
	t := &Task{ID: w.nextTask, Proc: p, Name: name, wake: make(chan struct{}, 1)}
	w.nextTask++
	w.tasks[t] = true
	p.tasks[t] = true
	go func() {
		<-t.wake
		defer w.taskEnd(t)
		if t.killed {
			return
		}
		f()
	}()
	w.ready(t)
	return t
}

// Go is the rewritten go statement.
func Go(f func()) {
	w := W
	if w == nil || w.cur == nil {
		go f()
		return
	}
	w.checkKilled()
	w.Spawn(w.cur.Proc, "go", f)
	w.Yield()
}

// taskEnd runs (deferred) at the end of each task's goroutine, with the baton held.
func (w *World) taskEnd(t *Task) {
	if r := recover(); r != nil && !t.killed {
		w.procPanic(t, r)
	}
	t.done = true
	delete(w.tasks, t)
	delete(t.Proc.tasks, t)
	if t.killed {
		// The killer waits for us.
		w.killAck <- struct{}{}
		return
	}
	w.cur = nil
	w.dispatch(nil)
}

// RecoverIsKill tells shims that recover panics not to swallow kills.
func (w *World) procPanic(t *Task, r any) {
	p := t.Proc
	if p == w.HarnessP || p.Data["harness"] != nil {
		w.Fatal = fmt.Sprintf("panic in harness task %s: %v\n%s", t.Name, r, debug.Stack())
		w.stopNow("harness panic")
		return
	}
	p.Panic = fmt.Sprint(r)
	p.Stack = string(debug.Stack())
	w.Tracef("PANIC in %s: %v", p.Name, r)
	t.done = true
	delete(p.tasks, t)
	w.killProc(p, 2, false)
}

func (w *World) ready(t *Task) {
	if t.queued || t.done {
		return
	}
	t.queued = true
	w.runq = append(w.runq, t)
}

// pick removes the next task from the run queue (non-empty).
func (w *World) pick() *Task {
	i := 0
	if n := len(w.runq); n > 1 {
		k := w.counts["pick"]
		w.counts["pick"] = k + 1
		if w.cfg.Replay {
			i = int(w.replay["pick"][k])
			if i >= n {
				i %= n
			}
		} else if w.cfg.PickP > 0 {
			r := w.rng("pick")
			if r.P(w.cfg.PickP) {
				i = r.Intn(n)
			}
		}
		if i != 0 {
			w.Log = append(w.Log, Decision{"pick", k, uint64(i)})
		}
	}
	t := w.runq[i]
	w.runq = append(w.runq[:i], w.runq[i+1:]...)
	t.queued = false
	return t
}

// fireTimers runs all timers due at the current time.
func (w *World) fireTimers() {
	for len(w.timers) > 0 && w.timers[0].at <= w.now {
		t := heap.Pop(&w.timers).(*timer)
		if !t.dead {
			t.dead = true
			t.f()
		}
	}
}

// dispatch hands the baton to the next task. self is the calling task (nil when it ended);
// it returns when self runs again.
func (w *World) dispatch(self *Task) {
	for {
		if w.stop {
			w.finish(self)
			return
		}
		w.fireTimers()
		if len(w.runq) > 0 {
			break
		}
		if len(w.timers) == 0 {
			w.stop, w.stopWhy, w.AtStop = true, "deadlock", w.TaskList()
			continue
		}
		if at := w.timers[0].at; at > w.now {
			w.now = at
		}
	}
	t := w.pick()
	w.Steps++
	w.note(uint64(t.ID)<<32 ^ uint64(w.now))
	if w.cfg.MaxSteps > 0 && w.Steps > w.cfg.MaxSteps {
		w.stop, w.stopWhy, w.AtStop = true, "step limit", w.TaskList()
	}
	if t == self {
		w.cur = t
		return
	}
	w.Switches++
	w.cur = t
	t.wake <- struct{}{}
	if self != nil {
		<-self.wake
		if self.killed {
			runtime.Goexit()
		}
	}
}

// finish ends the run: the driver unwinds everything.
func (w *World) finish(self *Task) {
	w.cur = nil
	close(w.finished)
	if self != nil {
		<-self.wake
		if self.killed {
			runtime.Goexit()
		}
		panic("rt: task resumed after the end of the run")
	}
}

func (w *World) stopNow(why string) {
	if !w.stop {
		w.stop, w.stopWhy = true, why
	}
}

// Stop ends the run from a harness task.
func (w *World) Stop(why string) {
	w.stopNow(why)
	w.park("stopped")
}

// Halt makes the run stop at the next scheduling point (usable inside file system hooks).
func (w *World) Halt(why string) { w.stopNow(why) }

func (w *World) StopReason() string { return w.stopWhy }

func (w *World) checkKilled() {
	if w.cur != nil && w.cur.killed {
		runtime.Goexit()
	}
}

// Yield is a preemption point.
func (w *World) Yield() {
	c := w.cur
	if c == nil {
		return
	}
	if c.killed {
		runtime.Goexit()
	}
	w.Yields++
	w.now += 50
	if w.Yields&4095 == 0 && w.cfg.MaxSteps > 0 && w.Yields > 10*w.cfg.MaxSteps {
		w.stop, w.stopWhy, w.AtStop = true, "yield limit", w.TaskList()
		w.preempt(c)
		return
	}
	if len(w.timers) > 0 && w.timers[0].at <= w.now {
		w.fireTimers()
	}
	if w.cfg.Replay {
		if w.replay["yield"][w.Yields] != 0 && w.Inhibit == 0 {
			w.Log = append(w.Log, Decision{"yield", w.Yields, 1})
			w.preempt(c)
		}
		return
	}
	if w.Yields >= w.nextPre {
		w.schedNextPreempt()
		if len(w.runq) > 0 && w.Inhibit == 0 {
			w.Log = append(w.Log, Decision{"yield", w.Yields, 1})
			w.preempt(c)
		}
	}
}

func (w *World) preempt(c *Task) {
	w.ready(c)
	w.dispatch(c)
}

// Pt is the statement-level preemption point inserted by the rewriter.
func Pt() {
	if w := W; w != nil && w.cur != nil {
		w.Yield()
	}
}

// park blocks the current task until someone readies it.
func (w *World) park(on string) {
	c := w.cur
	if c.killed {
		runtime.Goexit()
	}
	c.On = on
	w.dispatch(c)
	c.On = ""
}

// After runs f (on the scheduler, must not block) after d simulated nanoseconds.
func (w *World) After(d int64, f func()) *timer {
	if d < 0 {
		d = 0
	}
	w.seq++
	t := &timer{at: w.now + d, seq: w.seq, f: f}
	heap.Push(&w.timers, t)
	return t
}

func (t *timer) stop(w *World) bool {
	if t.dead {
		return false
	}
	t.dead = true
	if t.index >= 0 && t.index < len(w.timers) && w.timers[t.index] == t {
		heap.Remove(&w.timers, t.index)
	}
	return true
}

// Sleep parks the current task for d nanoseconds.
func (w *World) Sleep(d int64) {
	w.checkKilled()
	c := w.cur
	if c == nil {
		return
	}
	w.After(d, func() { w.ready(c) })
	w.park("sleep")
}

// Advance moves the clock forward as the cost of an operation, without blocking.
func (w *World) Advance(d int64) { w.now += d }

// Run starts f as the main harness task and drives the world until it stops.
func (w *World) Run(f func()) string {
	W = w
	w.Spawn(w.HarnessP, "main", func() {
		f()
		w.stopNow("done")
	})
	w.dispatch(nil)
	<-w.finished
	// Unwind everything that is left.
	for len(w.tasks) > 0 {
		for t := range w.tasks {
			w.unwind(t)
			break
		}
	}
	W = nil
	return w.stopWhy
}

// unwind terminates a parked task.
func (w *World) unwind(t *Task) {
	t.killed = true
	prev := w.cur
	w.cur = t
	if w.killAck == nil {
		w.killAck = make(chan struct{})
	}
	t.wake <- struct{}{}
	<-w.killAck
	w.cur = prev
}

// Kill ends process p as SIGKILL would. If the current task belongs to p it does not return.
func (w *World) Kill(p *Proc) { w.killProc(p, 137, true) }

// Exit ends process p as os.Exit would.
func (w *World) Exit(p *Proc, code int) { w.killProc(p, code, false) }

func (w *World) killProc(p *Proc, code int, killed bool) {
	if !p.Alive {
		if w.cur != nil && w.cur.Proc == p {
			w.endSelf()
		}
		return
	}
	p.Alive, p.ExitCode, p.Killed, p.ExitAt = false, code, killed, w.now
	w.Tracef("process %s pid %d ended (code %d)", p.Name, p.Pid, code)
	self := w.cur
	// Deterministic order.
	var ts []*Task
	for t := range p.tasks {
		ts = append(ts, t)
	}
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].ID < ts[j-1].ID; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
	for _, t := range ts {
		if t == self || t.done {
			continue
		}
		if t.queued {
			for i, q := range w.runq {
				if q == t {
					w.runq = append(w.runq[:i], w.runq[i+1:]...)
					break
				}
			}
			t.queued = false
		}
		w.unwind(t)
	}
	w.FS.closeProc(p)
	for _, f := range p.OnExit {
		f(p)
	}
	if self != nil && self.Proc == p && !self.done {
		w.endSelf()
	}
}

// endSelf unwinds the current task of a process that just ended. The baton is passed on first:
// a helper goroutine waits for the unwinding and then dispatches.
func (w *World) endSelf() {
	self := w.cur
	self.killed = true
	if w.killAck == nil {
		w.killAck = make(chan struct{})
	}
	ack := w.killAck
	go func() {
		<-ack
		w.cur = nil
		w.dispatch(nil)
	}()
	runtime.Goexit()
}

// TaskList describes the live tasks, for deadlock reports.
func (w *World) TaskList() []string {
	if DumpStacks { // to see what hangs
		b := make([]byte, 64<<20)
		os.WriteFile("/tmp/ferrysim.stacks", b[:runtime.Stack(b, true)], 0o600)
	}
	var out []string
	for t := range w.tasks {
		out = append(out, fmt.Sprintf("%s/%d %s on %q", t.Proc.Name, t.ID, t.Name, t.On))
	}
	sort.Strings(out)
	return out
}
