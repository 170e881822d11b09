package main

import (
	"fmt"
	"io/fs"
	stdos "os"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode"
	"unicode/utf8"

	ferrydmain "github.com/getsolus/ferryd/src/ferryd"
	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/libferry"
	logrus "github.com/sirupsen/logrus"
	"github.com/spf13/pflag"

	"verif.local/sim/rt"
	simnet "verif.local/sim/shim/net"
	simhttp "verif.local/sim/shim/net/http"
	simos "verif.local/sim/shim/os"
)

const sec = int64(time.Second)

// Viol is a property violation found in a run.
type Viol struct {
	Tags []string `json:"tags"`          // the properties it violates
	Ctx  []string `json:"ctx,omitempty"` // properties about the disturbances under way, if those caused it
	Kind string   `json:"kind"`          // class, kept while minimising
	Msg  string   `json:"msg"`
	At   int64    `json:"at"`
}

func (v *Viol) direct(id string) bool {
	for _, t := range v.Tags {
		if t == id {
			return true
		}
	}
	return false
}

func (v *Viol) has(id string) bool {
	for _, t := range append(append([]string{}, v.Tags...), v.Ctx...) {
		if t == id {
			return true
		}
	}
	return false
}

// opRec is one executed step.
type opRec struct {
	ph, cl, i          int
	n                  int // issue number
	s                  *Step
	sent, done         int64
	upAt, upEnd        int64 // when the manifest was put in place
	sentWall, doneWall int64
	acked              bool
	ambiguous          bool
	err                error
	rec                *jobRec
	files              []string // upload files
}

type jobRec struct {
	Desc    string
	Q, B, E int64
	Failed  bool
	Err     string
	op      *opRec
}

func (j *jobRec) key() string {
	return fmt.Sprintf("%s|%d|%d|%d|%v|%s", j.Desc, j.Q, j.B, j.E, j.Failed, j.Err)
}

type fired struct {
	at    int64 // wall
	kind  string
	class string
	path  string
}

type armed struct {
	f    Fault
	n    int
	left int
	done bool
}

// Run is one simulated execution of a plan.
type Run struct {
	w      *rt.World
	p      *Plan
	u      map[string]*Pkg
	viol   *Viol
	kf     map[string]string // known findings met
	trace  bool
	status string // "" or why the run was inconclusive

	proc     *rt.Proc
	inc      int
	upInc    int
	exitQ    rt.WaitQ
	upQ      rt.WaitQ
	termQ    rt.WaitQ
	termFlag bool
	terming  bool
	expected bool // the next exit is wanted
	holdDown bool // the supervisor must not restart
	killDown int64
	heldSock *simnet.Sock
	ending   bool
	restartT int64

	ph       int
	arms     []*armed
	ops      []*opRec
	phOps    []*opRec
	kills    []int64 // wall times of kills
	terms    []int64
	fires    []fired
	phFires  int
	phKills  int
	phTerms  int
	dbHit    bool
	clockJmp bool

	cands                    []*cand
	oldRecs                  [2][]*jobRec // completed, failed as stored at the last settle
	seenKeys                 map[string]bool
	shrink                   map[string]bool   // files that are cut short while they are read
	incoming                 map[string]string // expected contents of the upload directory
	incFuzzy                 map[string]bool
	srcFiles                 map[string]string // import sources: path -> sha1 ("" when not to be there)
	strayOK                  map[string]bool
	exempt                   map[string][]func(id string) bool
	staleOK                  map[string]map[string]bool
	fuzzy                    map[string]bool // repos disturbed in this phase
	ghosts                   map[string]bool // repositories whose directories may remain
	lastStat                 int
	ackSeen                  []*opRec
	idxBytes                 map[string]string
	probes                   int
	sumWait                  int64
	maxSteps                 uint64
	leftover                 bool // failed index attempts may have left temporary files
	inGen                    map[*rt.Inode]verdictGen
	client                   *libferry.Client
	midTerm                  *jobRec
	probeJobs                []*jobRec
	shas                     map[*rt.Inode]shaGen
	vis                      map[string]*visIdx
	obsOff                   bool
	capped                   bool
	tmpLeft                  map[string]bool
	prev                     []*cand
	lastDisturb              int64
	killsBefore, firesBefore int
	startFires               int // faults that fired before the daemon was last started
	resets                   []*opRec
	cdn                      *cdnState
	phCdn                    int // faults of the content delivery network in this phase
	stats                    map[string]int
}

func newRun(p *Plan, cfg rt.Config) *Run {
	r := &Run{p: p, u: map[string]*Pkg{}, kf: map[string]string{}, seenKeys: map[string]bool{}, incoming: map[string]string{}, incFuzzy: map[string]bool{}, shrink: map[string]bool{}, srcFiles: map[string]string{},
		strayOK: map[string]bool{}, exempt: map[string][]func(string) bool{}, staleOK: map[string]map[string]bool{}, fuzzy: map[string]bool{}, idxBytes: map[string]string{}, stats: map[string]int{},
		shas: map[*rt.Inode]shaGen{}, vis: map[string]*visIdx{}, inGen: map[*rt.Inode]verdictGen{}, tmpLeft: map[string]bool{}, ghosts: map[string]bool{}}
	for i := range p.Pkgs {
		k := &p.Pkgs[i]
		if r.u[k.ID()] == nil || k.Bad == "" {
			r.u[k.ID()] = k
		}
	}
	r.w = rt.NewWorld(cfg)
	r.cands = []*cand{{m: newModel(r.u)}}
	return r
}

// fail records a violation and stops the run.
func (r *Run) fail(tags []string, kind, f string, a ...any) {
	if r.viol != nil || r.ending && kind != "end" {
		return
	}
	r.viol = newViol(tags, kind, printable(fmt.Sprintf(f, a...)))
	r.viol.At = r.w.Now()
	r.w.Tracef("VIOLATION %v %v %s: %s", r.viol.Tags, r.viol.Ctx, kind, r.viol.Msg)
	r.w.Mix("viol " + kind)
	r.w.Halt("violation")
}

// printable keeps messages fit for a terminal and a line-oriented reader.
func printable(s string) string {
	return strings.Map(func(c rune) rune {
		if c == '\n' || c == '\t' || c >= ' ' && c != utf8.RuneError && unicode.IsPrint(c) {
			return c
		}
		return '?'
	}, s)
}

func newViol(tags []string, kind, msg string) *Viol {
	v := &Viol{Kind: kind, Msg: msg}
	tags = append([]string{}, tags...)
	sort.Strings(tags) // "?" sorts before the letters
	dir := map[string]bool{"": true}
	for _, x := range tags {
		if x != "" && x[0] != '?' && !dir[x] {
			dir[x] = true
			v.Tags = append(v.Tags, x)
		}
	}
	for _, x := range tags {
		if x != "" && x[0] == '?' && !dir[x[1:]] {
			dir[x[1:]] = true
			v.Ctx = append(v.Ctx, x[1:])
		}
	}
	return v
}

// ctxTags are the properties about the disturbances of the current phase.
func (r *Run) ctxTags() []string {
	var t []string
	if r.phKills > 0 {
		t = append(t, "?C13", "?C14")
	}
	if r.phFires > 0 {
		t = append(t, "?C15")
	}
	if r.phTerms > 0 {
		t = append(t, "?C18")
	}
	if r.malformed() {
		t = append(t, "?C16")
	}
	if r.p.ph(r.ph) != nil && len(r.p.ph(r.ph).Clients) > 1 {
		t = append(t, "?C02", "?C03")
	}
	if r.clockJmp {
		t = append(t, "?C17")
	}
	if r.phCdn > 0 {
		t = append(t, "?C23")
	}
	return t
}

func (p *Plan) ph(i int) *Phase {
	if i < 0 || i >= len(p.Phases) {
		return nil
	}
	return &p.Phases[i]
}

func (r *Run) malformed() bool {
	ph := r.p.ph(r.ph)
	if ph == nil {
		return false
	}
	for _, c := range ph.Clients {
		for i := range c {
			if stepMalformed(r.p, &c[i]) {
				return true
			}
		}
	}
	for i := range ph.Pre {
		if badXML(ph.Pre[i].Body) && ph.Pre[i].Body != "" {
			return true
		}
	}
	return false
}

func stepMalformed(p *Plan, s *Step) bool {
	if s.Op == "raw" || s.Mode != "" {
		return true
	}
	for _, n := range []string{s.Repo, s.Repo2} {
		if n != "" && !plainName(n) {
			return true
		}
	}
	for _, i := range s.Pkgs {
		if p.Pkgs[i].Bad != "" {
			return true
		}
	}
	return false
}

func plainName(n string) bool {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-') {
			return false
		}
	}
	return n != ""
}

func resetGlobals() {
	logrus.VerifReset()
	libdb.VerifReset()
	libeopkg.VerifReset()
	libferry.VerifReset()
	core.VerifReset()
	jobs.VerifReset()
	ferrydmain.VerifReset()
}

// onAccept: whoever may write to the socket may give the daemon orders.
func (r *Run) onAccept(p *rt.Proc, path string, n *rt.Inode) {
	r.stats["accepts"]++
	if m := n.Mode.Perm(); m != 0o660 && path == sock {
		r.fail([]string{"C24"}, "sockmode", "the daemon takes a connection from its socket, the mode of which is %04o", m)
	}
	if path == sock && r.heldSock == nil && (n.Uid != r.w.Uid || n.Gid != r.w.Gid) {
		r.fail([]string{"C24"}, "sockowner", "the daemon takes a connection from its socket, which belongs to %d:%d instead of %d:%d", n.Uid, n.Gid, r.w.Uid, r.w.Gid)
	}
}

func daemonArgs(p *Plan) {
	stdos.Args = []string{"ferryd", "-d", base, "-s", sock}
	if p.Jobs > 0 {
		stdos.Args = append(stdos.Args, "-j", fmt.Sprint(p.Jobs))
	}
	pflag.CommandLine = pflag.NewFlagSet("ferryd", pflag.ContinueOnError)
}

// start launches the daemon.
func (r *Run) start() {
	resetGlobals()
	daemonArgs(r.p)
	r.inc++
	r.startFires = len(r.fires)
	p := r.w.NewProc("ferryd")
	r.proc = p
	r.cdnEnv(p)
	if r.heldSock != nil {
		p.Env["LISTEN_FDS"] = "1"
		p.Env["LISTEN_PID"] = fmt.Sprint(p.Pid)
		p.Listener = r.heldSock.Inherit()
	}
	p.OnExit = append(p.OnExit, func(p *rt.Proc) {
		if p.Panic != "" && !r.ending {
			r.fail(append([]string{"C16", "C17"}, r.crashTags()...), "panic", "the daemon crashed: %s\n%s", p.Panic, trimStack(p.Stack))
		}
		r.exitQ.WakeAll()
		r.upQ.WakeAll()
	})
	r.w.Spawn(p, "main", func() { ferrydmain.VerifMain(); r.w.Exit(p, 0) })
	r.restartT = r.w.Now()
	r.lastDisturb = r.w.Now()
}

func (r *Run) crashTags() []string {
	if r.terming {
		return []string{"?C18"}
	}
	return r.ctxTags()
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "panic(") || strings.Contains(l, "/rt.") {
			continue
		}
		if strings.Contains(l, "getsolus") || strings.Contains(l, "main.") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// supervise restarts the daemon after injected kills and judges every other exit.
func (r *Run) supervise() {
	for {
		for r.proc.Alive {
			r.exitQ.Wait("supervisor")
		}
		p := r.proc
		if r.ending {
			return
		}
		if p.Killed {
			r.w.Sleep(r.killDown)
			if r.ending {
				return
			}
			if r.holdDown {
				r.exitQ.Wait("held down")
				continue
			}
			r.start()
			continue
		}
		if r.expected {
			r.exitQ.Wait("expected exit")
			continue
		}
		if p.Panic == "" && r.upInc < r.inc && len(r.fires) > r.startFires {
			// It may give up when its files cannot be reached as it starts.
			r.w.Stats["fault.start"]++
			r.w.Sleep(sec)
			if r.ending {
				return
			}
			r.start()
			continue
		}
		if p.Panic == "" {
			t := []string{"C17"}
			if r.upInc < r.inc {
				t = append(t, "?C13")
				if len(r.kills) > 0 {
					t = append(t, "C19")
				}
				if len(r.terms) > 0 {
					t = append(t, "?C18")
				}
			}
			r.fail(append(t, r.ctxTags()...), "exit", "the daemon ended by itself with code %d: %s", p.ExitCode, strings.TrimSpace(p.Out))
		}
		return
	}
}

func (r *Run) up() bool { return r.proc != nil && r.proc.Alive && r.upInc == r.inc }

// ioQuiet: no disk fault is armed or has just fired.
func (r *Run) ioArmed() bool {
	for _, a := range r.arms {
		if a.f.Kind != "kill" && a.f.Kind != "killtime" && a.f.Kind != "term" && a.f.Kind != "clock" && a.f.Kind != "cdn" && a.f.Kind != "watch" && a.n > 0 && a.n >= a.f.Nth {
			return true
		}
	}
	return false
}

// waitUp waits until the daemon answers.
func (r *Run) waitUp() {
	for {
		if r.up() {
			return
		}
		inc := r.inc
		if r.proc.Alive {
			c := libferry.NewClient(sock)
			_, err := c.GetStatus()
			c.Close()
			if err == nil && r.inc == inc && r.proc.Alive {
				r.upInc = inc
				return
			}
			if r.proc.Alive && r.inc == inc && r.w.Now()-r.restartT > 30*sec+r.sumWait {
				if r.ioArmed() {
					return
				}
				r.fail(append([]string{"?C13", "C17"}, r.ctxTags()...), "noup", "the daemon does not answer 30 s after it was started: %v", err)
			}
		}
		r.w.Sleep(sec / 5)
	}
}

// --- the world around the daemon ---

func (r *Run) setup() {
	w := r.w
	w.SetNextPid(400)
	if r.p.Pid > 0 {
		w.SetNextPid(r.p.Pid)
	}
	w.FS.MkdirAll(base, 0o755)
	w.FS.MkdirAll("/run", 0o755)
	w.FS.MkdirAll(srcDir, 0o755)
	w.FS.MkdirAll("/etc", 0o755)
	simos.WriteFile("/etc/canary.eopkg", []byte("untouched"), 0o644)
	if r.p.Lost {
		w.FS.MkdirAll(base+"/repo/"+lostDir, 0o755)
		simos.WriteFile(base+"/repo/"+lostDir+"/keep", []byte("untouched"), 0o644)
		r.ghosts[lostDir] = true
	}
	w.Umask = []fs.FileMode{0o022, 0o022, 0, 0o077}[r.p.Seed>>3%4]
	w.Uid, w.Gid, w.DirGid = 990, 985, []int{985, 985, 100}[r.p.Seed>>2%3]
	if r.p.Activated {
		r.heldSock = simnet.ListenHeld(sock)
		r.heldSock.Node.Mode = fs.ModeSocket | 0o660
	}
	w.OnAccept = r.onAccept
	r.cdnSetup()
	w.FS.Fault = r.fault
	w.FS.Observe = r.observe
	w.FS.Peek = func(op *rt.Op) {
		// An upload is started over while the daemon reads its file.
		if n := op.Node; n != nil && r.shrink[op.Path] {
			delete(r.shrink, op.Path)
			n.Data, n.Gen = nil, n.Gen+1
			r.incoming[op.Path] = sha1hex(nil)
		}
	}
	w.OnHandlerPanic = func(what string) {
		r.fail(append([]string{"C16", "C17"}, r.crashTags()...), "handlerpanic", "a request handler crashed: %s", what)
	}
}

// fault is the injection policy.
func (r *Run) fault(op *rt.Op) *rt.Verdict {
	if op.Proc != r.proc {
		return nil
	}
	class := "data"
	switch {
	case op.Kind == "exec":
		class = "tool"
	case op.Kind == "lock", op.Kind == "mksock", strings.HasPrefix(op.Path, "/proc"), strings.HasPrefix(op.Path, "/run"), strings.HasSuffix(op.Path, "ferryd.log"), strings.HasSuffix(op.Path, "ferryd.lock"):
		class = "aux"
	case strings.Contains(op.Path, "/ferry_db"):
		if class = "db"; op.Kind == "close" {
			return nil
		}
	case strings.HasPrefix(op.Path, srcDir), strings.HasPrefix(op.Path, base):
	case strings.HasPrefix(op.Path, "/etc/ferryd/"):
		class = "cfg"
	default:
		class = "aux"
	}
	for _, a := range r.arms {
		if a.done || !a.f.matches(op, class) {
			continue
		}
		a.n++
		if a.n < a.f.Nth {
			continue
		}
		if a.left--; a.left <= 0 {
			a.done = true
		}
		note := func() {
			r.fires = append(r.fires, fired{r.w.WallNow().UnixNano(), a.f.Kind, class, op.Path})
			r.w.Stats["fault."+a.f.Kind]++
			r.w.Mix("fault " + a.f.Kind)
			r.lastDisturb = r.w.Now()
			if class == "db" {
				if op.Mut {
					r.dbHit = true
				} else {
					r.w.Stats["fault.dbread"]++
				}
			}
		}
		switch a.f.Kind {
		case "kill":
			r.kills = append(r.kills, r.w.WallNow().UnixNano())
			r.phKills++
			r.killDown = int64(a.f.Down)*1e6 + 1
			r.w.Stats["fault.kill"]++
			r.w.Mix("kill")
			switch a.f.Mode {
			case "after":
				return &rt.Verdict{KillAfter: true}
			case "short":
				if op.Kind == "write" && op.N > 1 {
					return &rt.Verdict{KillBefore: true, KillShort: op.N / 2}
				}
				if op.Kind == "exec" {
					return &rt.Verdict{Short: 2, KillBefore: false, KillAfter: true}
				}
			}
			return &rt.Verdict{KillBefore: true}
		case "term":
			r.termFlag = true
			r.termQ.WakeAll()
			r.w.Mix("term")
			return nil
		case "eio":
			note()
			r.phFires++
			return &rt.Verdict{Err: syscall.EIO}
		case "enospc":
			note()
			r.phFires++
			v := &rt.Verdict{Err: syscall.ENOSPC}
			if op.Kind == "write" && op.N > 1 {
				v.Short = op.N / 2
			}
			return v
		case "short":
			note()
			r.phFires++
			return &rt.Verdict{Err: syscall.ENOSPC, Short: op.N / 2}
		case "stall":
			note()
			r.sumWait += int64(a.f.Ms) * 1e6
			return &rt.Verdict{Stall: int64(a.f.Ms) * 1e6}
		case "tool":
			note()
			r.phFires++
			switch a.f.Mode {
			case "half":
				return &rt.Verdict{Short: 1}
			case "killed":
				return &rt.Verdict{Short: 2}
			}
			return &rt.Verdict{Err: syscall.ENOENT}
		}
	}
	return nil
}

var enospcKinds = map[string]bool{"create": true, "write": true, "mkdir": true, "link": true, "rename": true, "symlink": true, "close": true}

func (f *Fault) matches(op *rt.Op, class string) bool {
	switch f.Kind {
	case "killtime", "clock", "cdn", "watch":
		return false
	case "tool":
		return op.Kind == "exec"
	}
	if f.Class != "" && f.Class != class && !(f.Class == "any" && (class == "data" || class == "db" || class == "tool")) && !(f.Class == "all") {
		return false
	}
	switch f.Kind {
	case "kill", "term":
		if class == "tool" {
			return true
		}
		return op.Mut || f.Mode == "read"
	case "enospc":
		return enospcKinds[op.Kind]
	case "short":
		return op.Kind == "write" && op.N > 1
	case "eio":
		if op.Kind == "lock" || op.Kind == "exec" || op.Kind == "mksock" {
			return false
		}
		if f.Mode != "" {
			return strings.Contains(","+f.Mode+",", ","+op.Kind+",")
		}
		return true
	case "stall":
		if f.Mode == "tram" { // as the daemon notices an upload
			return op.Kind == "stat" && strings.HasSuffix(op.Path, ".tram")
		}
		return op.Kind != "lock"
	}
	return false
}

// arm activates the faults of a phase.
func (r *Run) arm(ph *Phase) {
	r.arms = nil
	r.termFlag = false
	phase := r.ph
	for _, f := range ph.Faults {
		f := f
		a := &armed{f: f, left: f.Count}
		if a.left == 0 {
			a.left = 1
		}
		r.arms = append(r.arms, a)
		switch f.Kind {
		case "killtime":
			r.w.Spawn(r.w.HarnessP, "killer", func() {
				r.w.Sleep(int64(f.Ms) * 1e6)
				if r.ph != phase || r.ending || !r.proc.Alive || a.done || r.terming {
					return
				}
				a.done = true
				r.kills = append(r.kills, r.w.WallNow().UnixNano())
				r.phKills++
				r.killDown = int64(f.Down)*1e6 + 1
				r.w.Stats["fault.kill"]++
				r.w.Mix("kill")
				r.w.Kill(r.proc)
			})
		case "term":
			r.w.Spawn(r.w.HarnessP, "termer", func() {
				if f.Ms > 0 {
					r.w.Sleep(int64(f.Ms) * 1e6)
				} else {
					for !r.termFlag {
						r.termQ.Wait("term trigger")
					}
				}
				if r.ph != phase || r.ending || !r.up() || r.terming {
					return
				}
				r.terminate(int64(f.Down)*1e6, f.Mode == "int", f.Mode == "twice")
			})
		case "watch":
			r.w.Spawn(r.w.HarnessP, "watch", func() {
				r.w.Sleep(int64(f.Ms) * 1e6)
				if r.ph == phase {
					for _, fn := range r.w.OnWatchErr {
						if fn() {
							r.w.Stats["fault.watch"]++
							r.w.Mix("watch")
						}
					}
				}
			})
		case "clock":
			r.w.Spawn(r.w.HarnessP, "clock", func() {
				r.w.Sleep(int64(f.Nth) * 1e6)
				if r.ph == phase {
					r.w.WallOff += int64(f.Ms) * 1e6
					r.w.Stats["fault.clock"]++
					r.w.Mix("clock")
					r.clockJmp = true
				}
			})
		}
	}
}

// terminate stops the daemon gracefully and starts it again.
func (r *Run) terminate(down int64, interrupt, twice bool) {
	if r.terming || !r.up() {
		return
	}
	c := libferry.NewClient(sock)
	inc := r.inc
	st, err := c.GetStatus()
	c.Close()
	if err != nil || r.inc != inc || !r.proc.Alive || r.terming {
		return
	}
	r.terming, r.expected = true, true
	p := r.proc
	r.phTerms++
	r.w.Stats["fault.term"]++
	r.terms = append(r.terms, r.w.WallNow().UnixNano())

	{
		for _, j := range st.CurrentJobs {
			if !j.Timing.Begin.IsZero() && j.Description != "" {
				r.probeJobs = append(r.probeJobs, &jobRec{Desc: j.Description, B: j.Timing.Begin.UnixNano(), Q: j.Timing.Queued.UnixNano()})
			}
		}
	}
	sig := syscall.SIGTERM
	if interrupt {
		sig = syscall.SIGINT
	}
	t0 := r.w.Now()
	r.w.Signal(p.Pid, sig)
	if twice {
		r.w.Sleep(sec / 20)
		if p.Alive {
			r.w.Signal(p.Pid, sig)
		}
	}
	for p.Alive {
		if r.w.Now()-t0 > 90*sec+r.sumWait {
			r.fail([]string{"C18", "C17"}, "noexit", "the daemon has not ended 90 s after the signal: %s", strings.Join(r.w.TaskList(), "; "))
		}
		r.w.Sleep(sec / 10)
	}
	if p.Killed {
		// An injected kill hit the shutdown.
		r.probeJobs = nil
		r.terming, r.expected = false, false
		r.exitQ.WakeAll()
		return
	}
	if p.Panic != "" {
		return
	}
	if r.heldSock == nil && r.w.FS.Lookup(sock) != nil && !r.ioArmed() {
		r.fail([]string{"C18"}, "socketleft", "the socket is still there after a graceful stop")
	}
	r.w.Sleep(down + 1)
	if r.ending {
		return
	}
	r.start()
	r.terming, r.expected = false, false
	r.exitQ.WakeAll()
}

// --- clients ---

type clientCtx struct {
	lf *libferry.Client
	id int
}

func (r *Run) writeFile(p string, b []byte, viaRename bool) {
	if viaRename {
		t := p + ".part"
		simos.WriteFile(t, b, 0o644)
		simos.Rename(t, p)
		return
	}
	simos.WriteFile(p, b, 0o644)
}

func (r *Run) clientTask(ci int, steps []Step, done func()) {
	c := &clientCtx{lf: libferry.NewClient(sock), id: ci}
	for i := range steps {
		r.step(c, i, &steps[i])
	}
	c.lf.Close()
	done()
}

func (r *Run) step(c *clientCtx, i int, s *Step) {
	w := r.w
	switch s.Op {
	case "sleep":
		w.Sleep(int64(s.Ms) * 1e6)
		return
	}
	r.waitUp()
	op := &opRec{ph: r.ph, cl: c.id, i: i, s: s, n: len(r.ops), sent: w.Now(), sentWall: w.WallNow().UnixNano()}
	r.ops = append(r.ops, op)
	r.phOps = append(r.phOps, op)
	inc := r.inc
	fires := len(r.fires)
	w.Tracef("client %d: %s", c.id, s)
	r.noteRemoval(s)
	var err error
	switch s.Op {
	case "status":
		r.probeStatus(c.lf)
		op.done = w.Now()
		return
	case "list":
		_, e1 := c.lf.GetRepos()
		_, e2 := c.lf.GetPoolItems()
		op.done = w.Now()
		if e1 != nil {
			e2 = e1
		}
		if e2 != nil && r.inc == inc && r.proc.Alive && !r.terming && len(r.fires) == fires && !r.ioArmed() {
			r.fail(append([]string{"C17", "C05"}, r.ctxTags()...), "list", "listing failed: %v", e2)
		}
		return
	case "raw":
		r.raw(s, inc)
		op.done = w.Now()
		return
	case "create":
		err = c.lf.CreateRepo(s.Repo)
	case "delete":
		err = c.lf.DeleteRepo(s.Repo)
	case "delta":
		err = c.lf.DeltaRepo(s.Repo)
	case "index":
		err = c.lf.IndexRepo(s.Repo)
	case "import":
		err = c.lf.ImportPackages(s.Repo, r.importPaths(s))
	case "clone":
		err = c.lf.CloneRepo(s.Repo, s.Repo2, s.Flag)
	case "pull":
		err = c.lf.PullRepo(s.Repo2, s.Repo)
	case "copy":
		err = c.lf.CopySource(s.Repo, s.Repo2, s.Src, s.Rel, s.Flag)
	case "rmsrc":
		err = c.lf.RemoveSource(s.Repo, s.Src, s.Rel)
	case "trim":
		err = c.lf.TrimPackages(s.Repo, s.Rel)
	case "trimobs":
		err = c.lf.TrimObsolete(s.Repo)
	case "resetc":
		err = c.lf.ResetCompleted()
		r.resets = append(r.resets, op)
	case "resetf":
		err = c.lf.ResetFailed()
		r.resets = append(r.resets, op)
	case "upload":
		err = r.upload(c, op, inc)
	default:
		panic("unknown step " + s.Op)
	}
	op.done, op.err = w.Now(), err
	op.doneWall = w.WallNow().UnixNano()
	w.Tracef("client %d: %s -> %v", c.id, s.Op, err)
	disturbed := r.inc != inc || !r.proc.Alive || r.terming
	switch {
	case err == nil:
		op.acked = !op.ambiguous
		if s.Op == "upload" && disturbed && !op.acked {
			op.ambiguous = true
		}
	case disturbed || len(r.fires) > fires || r.ioArmed():
		op.ambiguous = true
		if len(r.fires) > fires && strings.Contains(err.Error(), "Timeout") && !disturbed && r.phFires == 0 {
			op.ambiguous = true
		}
	default:
		t := []string{"C01", "C17"}
		if s.Op == "resetc" || s.Op == "resetf" {
			t = []string{"C04"}
		}
		if r.proc.Alive && s.isJob() {
			t = append(t, opTag(s.Op))
		}
		r.fail(append(t, r.ctxTags()...), "refused", "request %s was answered with an error by a healthy daemon: %v", s, err)
	}
	if op.acked {
		r.ackSeen = append(r.ackSeen, op)
	}
}

func opTag(op string) string {
	switch op {
	case "create", "import", "clone", "pull", "copy":
		return "C09"
	case "rmsrc", "trim", "trimobs", "delete":
		return "C10"
	case "upload":
		return "C12"
	case "index":
		return "C07"
	}
	return "C03"
}

func (r *Run) importPath(i int) string {
	p := &r.p.Pkgs[i]
	for j := range r.p.Pkgs {
		if j < i && r.p.Pkgs[j].ID() == p.ID() {
			return fmt.Sprintf("%s/v%d/%s", srcDir, i, p.ID())
		}
	}
	return srcDir + "/" + p.ID()
}

// importPaths puts the package files in place and lists them.
func (r *Run) importPaths(s *Step) []string {
	var out []string
	for _, i := range s.Pkgs {
		p := r.importPath(i)
		if s.Name != "" { // named by way of a symbolic link
			l := fmt.Sprintf("%s/links/%d/%s", srcDir, i, r.p.Pkgs[i].ID())
			t := p
			if s.Name == "rel" {
				t = "../.." + p[len(srcDir):]
			}
			simos.MkdirAll(dirOf(l), 0o755)
			simos.Remove(l)
			simos.Symlink(t, l)
			out = append(out, l)
		} else {
			out = append(out, p)
		}
		b := r.p.Pkgs[i].Bytes()
		if n := r.w.FS.Lookup(p); n == nil {
			simos.MkdirAll(dirOf(p), 0o755)
			r.writeFile(p, b, true)
			r.srcFiles[p] = sha1hex(b)
		}
	}
	switch s.Mode {
	case "missing":
		out = append(out, srcDir+"/no-such-1-1-1-x86_64.eopkg")
		if s.Pad > 1 {
			for k := 1; k < s.Pad; k++ {
				out = append(out, out[0])
			}
		}
		return out
	case "missingfirst":
		out = append([]string{srcDir + "/no-such-1-1-1-x86_64.eopkg"}, out...)
		for k := 1; k < s.Pad; k++ {
			out = append(out, out[len(out)-1])
		}
		return out
	case "fifo":
		r.w.FS.Mkfifo(srcDir + "/pipe-1-1-1-x86_64.eopkg")
		out = append(out, srcDir+"/pipe-1-1-1-x86_64.eopkg")
		for k := 1; k < s.Pad; k++ {
			out = append(out, out[0])
		}
		return out
	case "isdir":
		simos.MkdirAll(srcDir+"/dir-1-1-1-x86_64.eopkg", 0o755)
		out = append(out, srcDir+"/dir-1-1-1-x86_64.eopkg")
		for k := 1; k < s.Pad; k++ {
			out = append(out, out[0])
		}
		return out
	}
	for k := 0; k < s.Pad; k++ {
		out = append(out, out[0])
	}
	return out
}

func dirOf(p string) string { return p[:strings.LastIndexByte(p, '/')] }

func otherPkg(p *Plan, s *Step, k int) int {
	if len(s.Pkgs) > 1 {
		return s.Pkgs[(k+1)%len(s.Pkgs)]
	}
	for i := range p.Pkgs {
		if i != s.Pkgs[k] && p.Pkgs[i].Bad == "" && p.Pkgs[i].ID() != p.Pkgs[s.Pkgs[k]].ID() {
			return i
		}
	}
	return s.Pkgs[k]
}

var badVersions = []string{"2.0", "1.1", "1", "1.0.0", "11.0", "0.1", "", "1.0-beta", "v1.0"}

// upload drops a manifest and its packages into the upload directory.
func (r *Run) upload(c *clientCtx, op *opRec, inc int) error {
	s := op.s
	w := r.w
	dir := base + "/incoming"
	if w.FS.Lookup(dir) == nil {
		op.ambiguous = true
		return fmt.Errorf("no upload directory")
	}
	var b strings.Builder
	ver, target := "1.0", s.Repo
	switch s.Mode {
	case "badversion":
		n := len(s.Repo) + 3*len(s.Pkgs) + int(r.p.Seed%64)
		for _, c := range s.Name {
			n += int(c)
		}
		ver = badVersions[n%len(badVersions)]
	case "notarget":
		target = "  "
	}
	pad := func(x string) string { // spaces around a value mean nothing
		if s.Pad&1 != 0 {
			return []string{" " + x, x + " ", "  " + x + " "}[(len(x)+len(s.Pkgs))%3]
		}
		return x
	}
	ver, target = pad(ver), pad(target)
	if s.Mode == "badtoml" {
		b.WriteString("[manifest\nversion = ")
	} else if s.Mode != "noheader" {
		fmt.Fprintf(&b, "[manifest]\nversion = %q\ntarget = %q\n\n", ver, target)
	}
	put := func(p string, data []byte) {
		delete(r.shrink, p)
		r.writeFile(p, data, true)
		r.incoming[p] = sha1hex(data)
		op.files = append(op.files, p)
	}
	for k, i := range s.Pkgs {
		p := &r.p.Pkgs[i]
		data := p.Bytes()
		sum := sha256hex(data)
		name := p.ID()
		last := k == len(s.Pkgs)-1
		if s.Rel2 > 0 { // the bad one is not the last
			last = k == (s.Rel2-1)%len(s.Pkgs)
		}
		if last {
			switch s.Mode {
			case "badsha":
				sum = sha256hex(append([]byte("x"), data...))
			case "uppersha":
				sum = sum[:63] + "g"
			case "emptysha":
				sum = ""
			case "shortsha":
				sum = sum[:32]
			case "longsha":
				sum += "00"
			case "shrink":
				sum = sha256hex(append([]byte("y"), data...))
			case "fifo":
				simos.Remove(dir + "/" + name)
				delete(r.incoming, dir+"/"+name)
				w.FS.Mkfifo(dir + "/" + name)
			case "othersha": // that of another listed file, or of an unlisted package
				sum = sha256hex(r.p.Pkgs[otherPkg(r.p, s, k)].Bytes())
			case "othercontent":
				data = r.p.Pkgs[otherPkg(r.p, s, k)].Bytes()
			case "othercopy": // another listed file under this name, with its sum twice
				data = r.p.Pkgs[otherPkg(r.p, s, k)].Bytes()
				sum = sha256hex(data)
				data = append(append([]byte{}, data...), 0)
			case "emptypath":
				name = " "
			case "noteopkg":
				name = name + ".txt"
			case "corrupt":
				if len(data) > 10 {
					data = append([]byte{}, data...)
					data[len(data)/2] ^= 1
				}
			case "truncated":
				data = data[:len(data)/2]
			case "absent":
				name = "absent-" + name
			case "traverse":
				// a file outside the upload directory
				q := srcDir + "/" + p.ID()
				if r.w.FS.Lookup(q) == nil {
					r.writeFile(q, data, true)
					r.srcFiles[q] = sha1hex(data)
				}
				name = "../../../" + q[1:]
			case "outlink", "outdir":
				// likewise, by way of a symbolic link
				q := srcDir + "/" + p.ID()
				if r.w.FS.Lookup(q) == nil {
					r.writeFile(q, data, true)
					r.srcFiles[q] = sha1hex(data)
				}
				data = r.w.FS.Lookup(q).Data
				sum = sha256hex(data)
				if s.Mode == "outlink" {
					simos.Remove(dir + "/" + name)
					delete(r.incoming, dir+"/"+name)
					simos.Symlink(q, dir+"/"+name)
				} else {
					simos.Symlink("../../.."+srcDir, dir+"/more")
					name = "more/" + name
				}
			case "canary":
				name = "../../../etc/canary.eopkg"
				sum = sha256hex([]byte("untouched"))
			}
		}
		if s.Pad&2 != 0 && name != "" && !strings.HasPrefix(name, ".") && s.Mode != "emptypath" {
			name = "./" + name
		}
		fmt.Fprintf(&b, "[[file]]\npath = %q\nsha256 = %q\n\n", pad(name), pad(sum))
		if s.Mode != "absent" && s.Mode != "traverse" && s.Mode != "outlink" && s.Mode != "outdir" && s.Mode != "fifo" && s.Mode != "canary" && s.Mode != "emptypath" || !last {
			put(dir+"/"+p.ID(), data)
			r.shrink[dir+"/"+p.ID()] = last && s.Mode == "shrink"
		}
	}
	tram := dir + "/" + s.Name
	txt := b.String()
	if s.Mode == "nopayload" {
		txt = fmt.Sprintf("[manifest]\nversion = \"1.0\"\ntarget = %q\n", s.Repo)
	}
	if s.Mode == "emptytram" {
		txt = ""
	}
	w.Yield()
	r.incoming[tram] = sha1hex([]byte(txt))
	op.files = append(op.files, tram)
	rename := s.Rel == 1
	op.upAt = w.Now()
	r.writeFile(tram, []byte(txt), rename)
	op.upEnd = w.Now()
	if r.inc != inc || !r.proc.Alive || r.terming {
		op.ambiguous = true
	}
	if s.Flag {
		return nil
	}
	// Watch for it to be listed.
	for t0 := w.Now(); ; {
		if r.inc != inc || !r.proc.Alive || r.terming {
			op.ambiguous = true
			return nil
		}
		st, err := c.lf.GetStatus()
		if err == nil {
			for _, l := range [][]*libferry.Job{st.CurrentJobs, st.CompletedJobs, st.FailedJobs} {
				for _, j := range l {
					if strings.Contains(j.Description, s.Name) {
						return nil
					}
				}
			}
		}
		if w.Now()-t0 > 20*sec+r.sumWait {
			if r.ioArmed() || r.phFires > 0 {
				op.ambiguous = true
				return nil
			}
			if r.inc == inc && r.proc.Alive && !r.terming {
				if len(r.resets) > 0 {
					return nil
				}
				r.fail(append([]string{"C01", "C12", "C17"}, r.ctxTags()...), "unnoticed", "upload %s is not listed after 20 s", s.Name)
			}
		}
		w.Sleep(sec / 2)
	}
}

// raw sends a request that must not queue anything.
func (r *Run) raw(s *Step, inc int) {
	method := "POST"
	if s.Mode == "get" || s.Mode == "badpath" {
		method = "GET"
	}
	cut := 0
	if s.Mode == "cut" {
		cut = len(s.Body)/2 + 1
	}
	code, _, err := simhttp.Raw(sock, &simhttp.RawRequest{Method: method, URI: s.Name, Host: "localhost", Body: []byte(s.Body), Cut: cut > 0}, 30*time.Second)
	r.w.Tracef("raw %s %s -> %d %v", method, s.Name, code, err)
	if err != nil && cut == 0 && r.inc == inc && r.proc.Alive && !r.terming && !r.ioArmed() {
		r.fail([]string{"C16", "C17"}, "raw", "a malformed request (%s %s %q) was not answered: %v", method, s.Name, s.Body, err)
	}
	if err == nil && code < 400 && r.inc == inc && r.proc.Alive {
		r.fail([]string{"C16", "C01"}, "rawok", "a malformed request (%s %s %q) was answered with success", method, s.Name, s.Body)
	}
}

func toRec(j *libferry.Job) *jobRec {
	n := func(t time.Time) int64 {
		if t.IsZero() {
			return 0
		}
		return t.UnixNano()
	}
	return &jobRec{Desc: j.Description, Q: n(j.Timing.Queued), B: n(j.Timing.Begin), E: n(j.Timing.End), Failed: j.Failed, Err: j.Error}
}

// hasReset: some reset request was issued in this phase.
func (r *Run) phReset() bool {
	for _, o := range r.phOps {
		if o.s.Op == "resetc" || o.s.Op == "resetf" {
			return true
		}
	}
	return false
}

func (o *opRec) isJob() bool { return o.s.isJob() }

// matchesDesc: the record or listing belongs to a job like this one.
func (o *opRec) matchesDesc(d string) bool {
	if o.s.Op == "upload" {
		return strings.Contains(d, o.s.Name)
	}
	return d == o.s.Describe()
}

// probeStatus checks a status answer while jobs are running.
func (r *Run) probeStatus(lf *libferry.Client) {
	inc := r.inc
	fires := len(r.fires)
	before := append([]*opRec(nil), r.ackSeen...)
	st, err := lf.GetStatus()
	if err != nil {
		if r.inc == inc && r.proc.Alive && !r.terming && len(r.fires) == fires && !r.ioArmed() {
			r.fail(append([]string{"C04", "C17"}, r.ctxTags()...), "status", "the status request failed: %v", err)
		}
		return
	}
	r.probes++
	running := 0
	for _, j := range st.CurrentJobs {
		if !j.Timing.Begin.IsZero() && !r.asyncDesc(j.Description) {
			running++
		}
	}
	if running > 1 {
		r.fail([]string{"C02", "C03"}, "parallel", "%d repository jobs are running at the same time", running)
	}
	if len(st.CompletedJobs) > 100 || len(st.FailedJobs) > 100 {
		r.fail([]string{"C04"}, "history", "history holds %d completed and %d failed jobs", len(st.CompletedJobs), len(st.FailedJobs))
	}
	if r.inc != inc || r.phReset() || r.dbHit {
		return
	}
	// Everything accepted before must be listed somewhere.
	count := map[string]int{}
	for _, l := range [][]*libferry.Job{st.CurrentJobs, st.CompletedJobs, st.FailedJobs} {
		for _, j := range l {
			count[j.Description]++
		}
	}
	need := map[string]int{}
	for _, o := range before {
		if o.ph != r.ph || !o.isJob() {
			continue
		}
		d := o.s.Describe()
		if o.s.Op == "upload" || len(o.s.Pkgs)+o.s.Pad == 0 && o.s.Op == "import" {
			continue
		}
		need[d]++
	}
	if len(st.CompletedJobs) >= 100 || len(st.FailedJobs) >= 100 {
		return
	}
	for _, d := range sortedKeys(need) {
		if count[d] < need[d] {
			r.fail(append([]string{"C01", "C04"}, r.ctxTags()...), "vanished", "%d accepted jobs %q, but the status lists %d", need[d], d, count[d])
		}
	}
}

func (r *Run) asyncDesc(d string) bool {
	for _, o := range r.ops {
		if o.isJob() && o.matchesDesc(d) {
			return false
		}
	}
	return true
}

// --- the main task ---

func (r *Run) main() {
	defer func() {
		if e := recover(); e != nil {
			if r.w.Fatal == "" {
				r.w.Fatal = fmt.Sprintf("panic in the harness: %v\n%s", e, debug.Stack())
			}
		}
	}()
	w := r.w
	r.setup()
	if f := specials[r.p.Profile]; f != nil {
		f(r)
		r.ending = true
		return
	}
	r.start()
	w.Spawn(w.HarnessP, "supervisor", r.supervise)
	r.waitUp()
	for i := range r.p.Phases {
		r.phase(i)
		if r.status != "" {
			break
		}
	}
	if r.status == "" && r.p.TermEnd {
		r.finalStop()
	}
	r.ending = true
}

func (r *Run) phase(i int) {
	w := r.w
	ph := &r.p.Phases[i]
	r.ph = i
	r.phOps, r.ackSeen, r.resets = nil, nil, nil
	r.exempt = map[string][]func(string) bool{}
	r.fuzzy = map[string]bool{}
	w.Tracef("--- phase %d", i)
	r.killsBefore, r.firesBefore = len(r.kills), len(r.fires)
	w.Mix("phase")
	r.phFires, r.phKills, r.phTerms, r.phCdn = 0, 0, 0, 0
	for k := range ph.Pre {
		s := &ph.Pre[k]
		if s.Op != "asset" {
			continue
		}
		r.waitUp()
		p := base + "/assets/" + s.Repo + "/" + s.Name
		if n := w.FS.Lookup(dirOf(p)); n == nil || !n.IsDir() {
			continue
		}
		if s.Mode == "rm" {
			simos.Remove(p)
		} else {
			r.writeFile(p, []byte(s.Body), !s.Flag)
		}
		for _, c := range r.cands {
			if t := c.m.repos[s.Repo]; t != nil {
				if s.Mode == "rm" {
					delete(t.assets, s.Name)
				} else {
					t.assets[s.Name] = s.Body
				}
			}
		}
	}
	switch ph.Restart {
	case "kill":
		r.killDown = sec / 2
		r.kills = append(r.kills, w.WallNow().UnixNano())
		r.phKills++
		w.Stats["fault.kill"]++
		w.Kill(r.proc)
		for r.up() || !r.proc.Alive {
			w.Sleep(sec / 10)
		}
		r.waitUp()
	case "term":
		r.terminate(sec/2, false, false)
		r.waitUp()
	}
	r.arm(ph)
	left := len(ph.Clients)
	var q rt.WaitQ
	for ci := range ph.Clients {
		ci := ci
		w.Spawn(w.HarnessP, fmt.Sprintf("client%d", ci), func() {
			r.clientTask(ci, ph.Clients[ci], func() { left--; q.WakeAll() })
		})
	}
	for left > 0 {
		q.Wait("clients")
	}
	r.settle(ph)
}
