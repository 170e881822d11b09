//go:build ctl

package main

import (
	"encoding/json"
	"fmt"
	stdhttp "net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/spf13/cobra"
	"github.com/spf13/pflag"

	"github.com/getsolus/ferryd/src/ferryctl/cmd"

	"verif.local/sim/rt"
	simnet "verif.local/sim/shim/net"
	simhttp "verif.local/sim/shim/net/http"
	simos "verif.local/sim/shim/os"
)

func init() {
	specials["ctl"] = ctlMain
	cobra.OnInitialize(restoreFlags)
	ownFlags(cmd.RootCmd)
}

// The daemon's flags are in pflag.CommandLine, which cobra would add to those of the client;
// it is hidden until the arguments are parsed (nothing else runs meanwhile).
var daemonFlags *pflag.FlagSet

func restoreFlags() {
	if daemonFlags != nil {
		pflag.CommandLine, daemonFlags = daemonFlags, nil
	}
}

// ctlSim runs the command line client, each command as a process of its own, against the real
// daemon or against one that answers with anything a daemon may answer.
type ctlSim struct {
	r     *Run
	w     *rt.World
	rnd   *rt.Rand
	stub  bool
	by    map[*rt.Proc]*ctlRun
	files map[string]bool // regular files below home
	dirs  []string
	names []string
	alt   bool
	users int
	busy  map[string]bool
}

// ctlRun is one command.
type ctlRun struct {
	args   []string
	p      *rt.Proc
	nth    int // fail the nth operation below home
	n      int
	errno  syscall.Errno
	fired  bool
	killed bool
	want   *ctlReq // nil: must be refused by the client
	none   bool    // a command that sends nothing and succeeds
}

type ctlReq struct {
	method, path string
	body         map[string]any
	list         []string // the paths of an import, in any order
}

const home = "/home/user"
const altSock = "/run/other.sock"

func ctlMain(r *Run) {
	l := &ctlSim{r: r, w: r.w, rnd: rt.NewRand(r.p.Seed ^ 0xc71), by: map[*rt.Proc]*ctlRun{}, files: map[string]bool{}, busy: map[string]bool{}}
	w := r.w
	w.FS.Observe = nil
	w.FS.Fault = l.fault
	l.names = []string{"unstable", "shannon", "a", "a-b", "a b", "a?b", "unstable#1", "50%", "a%20b", "ünï", "a&b=c", "A+b", "x;y", "-", "a.b", "..a", "~", "a:b", "@", "%", "a,b", "日本"}
	for i, k := range permute(l.rnd, len(l.names)) {
		l.names[i], l.names[k] = l.names[k], l.names[i]
	}
	l.names = l.names[:4+l.rnd.Intn(6)]
	l.tree()
	l.stub = l.rnd.P(0.5) && r.heldSock == nil
	if l.stub {
		l.serveStub(sock)
		if l.rnd.P(0.3) {
			l.alt = true
			l.serveStub(altSock)
		}
	} else {
		r.start()
		w.Spawn(w.HarnessP, "supervisor", r.supervise)
		r.waitUp()
	}
	l.users = 1 + l.rnd.Intn(3)
	left := l.users
	var q rt.WaitQ
	for u := 0; u < l.users; u++ {
		rnd := rt.NewRand(r.p.Seed ^ uint64(u+1)*0x9e37)
		w.Spawn(w.HarnessP, fmt.Sprintf("user%d", u), func() {
			for i := 0; i < 4+r.p.N/3; i++ {
				l.command(rnd)
			}
			left--
			q.WakeAll()
		})
	}
	for left > 0 {
		q.Wait("users")
	}
	r.stats["checks"]++
}

// tree makes directories with packages and other files.
func (l *ctlSim) tree() {
	l.dirs = []string{home}
	simos.MkdirAll(home, 0o755)
	for i := 0; i < l.rnd.Intn(5); i++ {
		d := l.dirs[l.rnd.Intn(len(l.dirs))] + "/" + []string{"pk", "sub", "a b", "x-1-1-1-x86_64.eopkg.d", "d-1-1-1-x86_64.eopkg", "%20", "z"}[l.rnd.Intn(7)]
		simos.MkdirAll(d, 0o755)
		l.dirs = append(l.dirs, d)
	}
	for i := 0; i < l.rnd.Intn(14); i++ {
		n := []string{"nano-%d-1-1-x86_64.eopkg", "nano-%d-1-1-x86_64.delta.eopkg", "nano-1-%d-1-x86_64.eopkg", "nano-1-2-1-i686.eopkg", "note%d.txt", "x86_64.eopkg", "gcc %d-1-1-1-x86_64.eopkg", "n-%d-1-x86_64.eopkg.sig", "q\"%d\"-1-1-1-x86_64.eopkg", "日-%d-1-1-x86_64.eopkg", "N-%d-X86_64.EOPKG"}[l.rnd.Intn(11)]
		if strings.Contains(n, "%d") {
			n = fmt.Sprintf(n, l.rnd.Intn(12))
		}
		f := l.dirs[l.rnd.Intn(len(l.dirs))] + "/" + n
		if l.w.FS.Lookup(f) == nil {
			simos.WriteFile(f, []byte("x"), 0o644)
			l.files[f] = true
		}
	}
}

func (l *ctlSim) fault(op *rt.Op) *rt.Verdict {
	c := l.by[op.Proc]
	if c == nil || c.nth == 0 || !strings.HasPrefix(op.Path, home) {
		return nil
	}
	if c.n++; c.n != c.nth {
		return nil
	}
	c.fired = true
	l.w.Stats["fault.eio"]++
	l.w.Mix("fault")
	return &rt.Verdict{Err: c.errno}
}

// serveStub is a daemon that may answer anything.
func (l *ctlSim) serveStub(path string) {
	l.w.OnAccept = nil
	ln, err := simnet.Listen("unix", path)
	if err != nil {
		panic(err)
	}
	rnd := rt.NewRand(l.r.p.Seed ^ 0x57ab)
	h := stdhttp.HandlerFunc(func(w stdhttp.ResponseWriter, q *stdhttp.Request) {
		switch rnd.Intn(14) {
		case 0:
			l.w.Stats["fault.drop"]++
			panic(stdhttp.ErrAbortHandler)
		case 1:
			l.w.Stats["fault.slow"]++
			l.w.Sleep(int64(rnd.Intn(70)) * sec)
		case 2:
			l.w.Stats["fault.refuse"]++
			b, _ := json.Marshal(map[string]any{"Error": true, "ErrorString": "leveldb: " + []string{"closed", "not found", "input/output error", strings.Repeat("/a/very/long/path", 200)}[rnd.Intn(4)]})
			if q.Method == "GET" && (strings.Contains(q.URL.Path, "list") || strings.Contains(q.URL.Path, "status")) {
				w.WriteHeader(500)
				w.Write([]byte("leveldb: closed\n"))
				return
			}
			w.WriteHeader([]int{400, 500, 503, 404, 413}[rnd.Intn(5)])
			if rnd.P(0.5) {
				w.Write(b)
			}
			return
		case 3:
			l.w.Stats["fault.cut"]++
			if q.Method == "GET" && (strings.Contains(q.URL.Path, "list") || strings.Contains(q.URL.Path, "status")) {
				w.Write([]byte(`{"repos":["unst`))
				return
			}
		}
		text := func() string {
			return []string{"Create repository '" + l.names[rnd.Intn(len(l.names))] + "'", "Import of 3 packages into 'unstable'", "x", "a very long description that goes on and on, far beyond the width of any column of the table",
				"日本語 text", "Trim packages in 'a-b' to 3", "100% done", "%s %d"}[rnd.Intn(8)]
		}
		switch {
		case strings.HasSuffix(q.URL.Path, "list/repos"):
			n := rnd.Intn(len(l.names) + 1)
			json.NewEncoder(w).Encode(map[string]any{"repos": l.names[:n]})
		case strings.HasSuffix(q.URL.Path, "list/pool"):
			var items []map[string]any
			for i := 0; i < rnd.Intn(60); i++ {
				items = append(items, map[string]any{"id": fmt.Sprintf("p%d-1-%d-1-x86_64.eopkg", rnd.Intn(99), i), "refCount": rnd.Intn(4)})
			}
			json.NewEncoder(w).Encode(map[string]any{"items": items})
		case strings.HasSuffix(q.URL.Path, "status"):
			now := l.w.WallNow().UTC()
			mk := func(kind int) any {
				var js []map[string]any
				perm := permute(rnd, 40)
				for i := 0; i < []int{0, 1, 3, 9, 10, 11, 30}[rnd.Intn(7)]; i++ {
					tq := now.Add(-time.Duration(perm[i]+60)*time.Minute - time.Duration(rnd.Intn(1e9)))
					tb := tq.Add(time.Duration(rnd.Intn(50)) * 517 * time.Millisecond)
					te := tb.Add(time.Duration(rnd.Intn(5e9)))
					j := map[string]any{"description": text(), "failed": kind == 1, "error": ""}
					if kind == 1 {
						j["error"] = text()
					}
					t := map[string]any{"queued": tq, "begin": tb, "end": te}
					if kind == 0 {
						t["end"] = time.Time{}
						if rnd.P(0.5) {
							t["begin"] = time.Time{}
						}
					}
					j["timing"] = t
					js = append(js, j)
				}
				return js
			}
			json.NewEncoder(w).Encode(map[string]any{"timeStarted": now.Add(-time.Hour), "version": "1.2.3", "currentJobs": mk(0), "failedJobs": mk(1), "completedJobs": mk(2)})
		}
	})
	l.w.Spawn(l.w.HarnessP, "stub", func() { simhttp.Serve(ln, h) })
	l.w.OnHandlerPanic = nil
}

func (l *ctlSim) name(rnd *rt.Rand) string { return l.names[rnd.Intn(len(l.names))] }

// command invents, runs and judges one command.
func (l *ctlSim) command(rnd *rt.Rand) {
	w := l.w
	c := &ctlRun{}
	get := func(p string, id string) *ctlReq { return &ctlReq{method: "GET", path: "/api/v1/" + p + id} }
	post := func(p, id string, b map[string]any) *ctlReq {
		return &ctlReq{method: "POST", path: "/api/v1/" + p + id, body: b}
	}
	n, n2 := l.name(rnd), l.name(rnd)
	rel := []string{"1", "7", "12", "2147483647", "007"}[rnd.Intn(5)]
	badRel := []string{"0", "-1", "x", "", "1.5", "99999999999", "2147483648", "0x10", "1 "}[rnd.Intn(9)]
	relN := func(s string) float64 { x, _ := strconv.Atoi(s); return float64(x) }
	src := []string{"nano", "glibc", "a b", "ünï", "c++", ""}[rnd.Intn(6)]
	bad := rnd.P(0.12) // wrong number of arguments
	switch rnd.Intn(18) {
	case 0:
		c.args, c.want = []string{"create-repo", n}, get("create/repo/", n)
	case 1:
		c.args, c.want = []string{"remove", "repo", n}, get("remove/repo/", n)
	case 2:
		c.args, c.want = []string{"delta", n}, get("delta/repo/", n)
	case 3:
		c.args, c.want = []string{"index", n}, get("index/repo/", n)
	case 4, 5, 6:
		c.args = []string{"import", n}
		q := post("import/", n, map[string]any{})
		gone := false
		for i := 0; i <= rnd.Intn(3); i++ {
			a := l.dirs[rnd.Intn(len(l.dirs))]
			if fs := sortedKeys(l.files); len(fs) > 0 && rnd.P(0.5) {
				a = fs[rnd.Intn(len(fs))]
			}
			if rnd.P(0.1) {
				a += "/missing"
				gone = true
			}
			for _, f := range sortedKeys(l.files) {
				if (f == a || strings.HasPrefix(f, a+"/")) && strings.HasSuffix(f, "x86_64.eopkg") {
					q.list = append(q.list, f)
				}
			}
			switch rnd.Intn(5) {
			case 0:
				a = a[1:] // the working directory is the root
			case 1:
				a += "/"
				if l.files[strings.TrimSuffix(a, "/")] {
					a = strings.TrimSuffix(a, "/")
				}
			case 2:
				a = "/home/./user" + a[len(home):]
			}
			c.args = append(c.args, a)
		}
		if !gone {
			c.want = q
		}
		if rnd.P(0.35) {
			c.nth = 1 + rnd.Intn(1+rnd.Intn(12))
			c.errno = []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EMFILE}[rnd.Intn(3)]
		}
	case 7:
		c.args, c.want = []string{"clone", n, n2}, post("clone/", n, map[string]any{"cloneName": n2, "copyAll": false})
		if rnd.P(0.5) {
			c.args = append(c.args, []string{"--full", "-f"}[rnd.Intn(2)])
			c.want.body["copyAll"] = true
		}
	case 8:
		c.args, c.want = []string{"pull", n, n2}, post("pull/", n2, map[string]any{"source": n})
	case 9:
		c.args, c.want = []string{"remove", "source", n, src}, post("remove/source/", n, map[string]any{"source": src, "relno": -1.0})
		if rnd.P(0.7) {
			c.args = append(c.args, rel)
			c.want.body["relno"] = relN(rel)
			if rnd.P(0.2) {
				c.args, c.want = append([]string{"remove", "source", "--"}, n, src, badRel), nil
			}
		}
	case 10:
		c.args, c.want = []string{"copy", "source", n, n2, src}, post("copy/source/", n, map[string]any{"target": n2, "source": src, "relno": -1.0, "skipIndex": false})
		if rnd.P(0.7) {
			c.args = append(c.args, rel)
			c.want.body["relno"] = relN(rel)
			if rnd.P(0.2) {
				c.args, c.want = append([]string{"copy", "source", "--"}, n, n2, src, badRel), nil
			}
		}
		if c.want != nil && rnd.P(0.5) {
			c.args = append(c.args, []string{"--skip-index", "-x"}[rnd.Intn(2)])
			c.want.body["skipIndex"] = true
		}
	case 11:
		c.args, c.want = []string{"trim", "packages", n, rel}, post("trim/packages/", n, map[string]any{"maxPackages": relN(rel)})
		if rnd.P(0.2) {
			c.args, c.want = []string{"trim", "packages", "--", n, badRel}, nil
		}
	case 12:
		c.args, c.want = []string{"trim", "obsolete", n}, get("trim/obsoletes/", n)
	case 13:
		if rnd.P(0.5) {
			c.args, c.want = []string{"reset", "failed"}, get("reset/failed", "")
		} else {
			c.args, c.want = []string{"reset", "completed"}, get("reset/completed", "")
		}
	case 14:
		c.args, c.want = []string{"list", "repos"}, get("list/repos", "")
	case 15:
		c.args, c.want = []string{"list", "pool"}, get("list/pool", "")
	case 16:
		c.args, c.want = []string{"status"}, get("status", "")
		if rnd.P(0.4) {
			c.args = append(c.args, []string{"-a", "--all"}[rnd.Intn(2)])
		}
	case 17:
		c.args, c.none = []string{"version"}, true
	}
	if bad && !c.none && c.args[0] != "import" {
		var pos int
		for _, a := range c.args {
			if a != "-a" && a != "--all" && a != "-x" && a != "--skip-index" && a != "-f" && a != "--full" && a != "--" {
				pos++
			}
		}
		c.want = nil
		if last := c.args[len(c.args)-1]; rnd.P(0.5) && pos > 2 && len(c.args) == pos && c.args[0] != "list" && c.args[0] != "reset" && !(pos == 5 && c.args[1] == "source") && !(pos == 6 && c.args[1] == "source") && last != "" {
			c.args = c.args[:len(c.args)-1]
		} else {
			c.args = append(c.args, "1", "1", "1")
		}
	}
	onAlt := l.alt && rnd.P(0.4)
	gone := rnd.P(0.06)
	if onAlt {
		c.args = append([]string{"-s", altSock}, c.args...)
	} else if gone {
		c.args = append([]string{"--socket=/run/nobody.sock"}, c.args...)
	}
	if rnd.P(0.05) {
		c.killed = true
	}
	if !l.stub && rnd.P(0.04) {
		w.Stats["fault.kill"]++
		l.r.killDown = int64(rnd.Intn(3)) * sec
		w.Kill(l.r.proc)
	}
	l.run(c, rnd)
	l.judge(c)
	if rnd.P(0.5) {
		w.Sleep(int64(rnd.Intn(3000)) * int64(time.Millisecond))
	}
}

func permute(r *rt.Rand, n int) []int {
	p := make([]int, n)
	for i := range p {
		k := r.Intn(i + 1)
		p[i] = p[k]
		p[k] = i
	}
	return p
}

// ctlFlags are the client's own flags by command (cobra may add the daemon's when it prints help).
var ctlFlags = map[*cobra.Command][]*pflag.Flag{}

func ownFlags(c *cobra.Command) {
	add := func(f *pflag.Flag) { ctlFlags[c] = append(ctlFlags[c], f) }
	c.Flags().VisitAll(add)
	c.PersistentFlags().VisitAll(add)
	for _, s := range c.Commands() {
		ownFlags(s)
	}
}

// resetFlags gives the flags the command sees the values they have in a new process.
func resetFlags(c *cobra.Command) {
	for ; c != nil; c = c.Parent() {
		for _, f := range ctlFlags[c] {
			f.Value.Set(f.DefValue)
			f.Changed = false
		}
	}
}

func (l *ctlSim) run(c *ctlRun, rnd *rt.Rand) {
	w := l.w
	p := w.NewProc("ferryctl")
	p.Data["http"] = []*simhttp.Record{}
	c.p = p
	l.by[p] = c
	var q rt.WaitQ
	p.OnExit = append(p.OnExit, func(*rt.Proc) { q.WakeAll() })
	w.Tracef("ferryctl %q", c.args)
	sub, _, _ := cmd.RootCmd.Find(c.args)
	// Flags are variables of the program, which the simulated processes share: of the commands
	// that look at theirs after something else could run, there is one of a kind at a time.
	if len(ctlFlags[sub]) > 0 || sub.HasParent() && sub.Parent().HasParent() {
		k := sub.Name()
		for l.busy[k] {
			w.Sleep(sec / 50)
		}
		l.busy[k] = true
		defer func() { l.busy[k] = false }()
	}
	w.Spawn(p, "main", func() {
		cmd.RootCmd.SetOut(simos.Stdout)
		cmd.RootCmd.SetErr(simos.Stderr)
		daemonFlags, pflag.CommandLine = pflag.CommandLine, pflag.NewFlagSet("ferryctl", pflag.ContinueOnError)
		resetFlags(sub)
		cmd.RootCmd.SetArgs(c.args)
		code := 0
		if err := cmd.RootCmd.Execute(); err != nil {
			code = 1
		}
		restoreFlags()
		w.Exit(p, code)
	})
	if c.killed {
		w.Sleep(int64(rnd.Intn(2000)) * 100)
		if p.Alive {
			w.Stats["fault.kill"]++
			w.Kill(p)
		} else {
			c.killed = false
		}
	}
	t0 := w.Now()
	t := w.After(200*sec, func() { q.WakeAll() })
	for p.Alive && w.Now()-t0 < 200*sec {
		q.Wait("command")
	}
	t.Stop()
	l.r.stats["commands"]++
	l.r.stats["jobs"]++
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), "") }

func (l *ctlSim) judge(c *ctlRun) {
	p := c.p
	fail := func(kind, f string, a ...any) {
		l.r.fail([]string{"C22"}, kind, "ferryctl %q: %s", c.args, fmt.Sprintf(f, a...))
	}
	if p.Alive {
		fail("ctl-hang", "has not ended after 200 s")
		return
	}
	if p.Panic != "" {
		fail("ctl-panic", "crashed: %s\n%s", p.Panic, trimStack(p.Stack))
		return
	}
	var reqs []*simhttp.Record
	for _, q := range p.Data["http"].([]*simhttp.Record) {
		if q.Code/100 == 3 && q.Location != "" {
			continue // asked to ask elsewhere
		}
		reqs = append(reqs, q)
	}
	l.w.MixCoarse(fmt.Sprint(c.args[0], len(reqs), c.want == nil, p.ErrOut == ""))
	errOut := strings.TrimSpace(p.ErrOut)
	if c.want == nil {
		if len(reqs) > 0 {
			fail("ctl-sent", "sent %s %s although its arguments are not valid", reqs[0].Method, reqs[0].URI)
		} else if !c.killed && strings.TrimSpace(p.Out) == "" && !c.none {
			fail("ctl-silent", "has nothing to say about invalid arguments: %q", p.Out)
		} else if !c.killed && errOut != "" && c.none {
			fail("ctl-error", "complains: %s", errOut)
		}
		return
	}
	if len(reqs) > 1 {
		fail("ctl-twice", "sent %d requests, %s %s and %s %s", len(reqs), reqs[0].Method, reqs[0].URI, reqs[1].Method, reqs[1].URI)
		return
	}
	for _, q := range reqs {
		if d := l.differs(c, q); d != "" {
			fail("ctl-request", "%s", d)
			return
		}
	}
	if c.killed {
		return
	}
	if len(reqs) == 0 {
		if errOut == "" {
			fail("ctl-silent", "sent nothing and reported no error (%q)", p.Out)
		} else if !c.fired && !strings.Contains(errOut, "dial") && !strings.Contains(errOut, "connect") {
			fail("ctl-refused", "sent nothing: %s", errOut)
		}
		return
	}
	q := reqs[0]
	ok := q.Code == 200
	var ans struct {
		Error       bool
		ErrorString string
	}
	jerr := error(nil)
	if len(q.Reply) > 0 {
		jerr = json.Unmarshal(q.Reply, &ans)
	}
	if jerr != nil || ans.Error {
		ok = false
	}
	if !ok && errOut == "" {
		fail("ctl-silent", "was refused (%d %q) and reported no error", q.Code, q.Reply)
		return
	}
	if ans.Error && !strings.Contains(errOut, ans.ErrorString) {
		fail("ctl-message", "was refused with %q and reported %q", ans.ErrorString, errOut)
		return
	}
	if ok && errOut != "" {
		fail("ctl-error", "was served (%q) and reported %q", q.Reply, errOut)
		return
	}
	if !ok {
		return
	}
	l.r.stats["answers"]++
	last := c.args[len(c.args)-1]
	switch {
	case strings.HasSuffix(q.URI, "/list/repos"):
		var a struct{ Repos []string }
		json.Unmarshal(q.Reply, &a)
		sort.Strings(a.Repos)
		var got []string
		for _, s := range strings.Split(p.Out, "\n") {
			if strings.HasPrefix(s, " * ") {
				got = append(got, s[3:])
			}
		}
		if strings.Join(got, "\n") != strings.Join(a.Repos, "\n") {
			fail("ctl-list", "printed %q for %q", got, a.Repos)
		}
	case strings.HasSuffix(q.URI, "/list/pool"):
		var a struct {
			Items []struct {
				ID       string
				RefCount int
			}
		}
		json.Unmarshal(q.Reply, &a)
		var got, want []string
		for _, s := range strings.Split(p.Out, "\n") {
			if strings.HasPrefix(s, " - RefCount: ") {
				got = append(got, s)
			}
		}
		for _, x := range a.Items {
			want = append(want, fmt.Sprintf(" - RefCount: %d | %s", x.RefCount, x.ID))
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			fail("ctl-list", "printed %q for %q", got, want)
		}
	case strings.HasSuffix(q.URI, "/status"):
		if d := checkStatus(p.Out, q.Reply, last == "-a" || last == "--all"); d != "" {
			fail("ctl-status", "%s", d)
		}
	}
}

// differs compares the request with what the arguments ask for.
func (l *ctlSim) differs(c *ctlRun, q *simhttp.Record) string {
	u, err := url.ParseRequestURI(q.URI)
	if err != nil {
		return "sent a malformed request " + q.URI
	}
	path := u.Path
	for strings.HasPrefix(path, "//") {
		path = path[1:]
	}
	if q.Method != c.want.method || path != c.want.path || u.RawQuery != "" {
		return fmt.Sprintf("sent %s %s instead of %s %s", q.Method, q.URI, c.want.method, c.want.path)
	}
	if c.want.body == nil {
		return ""
	}
	var b map[string]any
	if err := json.Unmarshal(q.Body, &b); err != nil {
		return "sent a malformed body: " + string(q.Body)
	}
	for _, k := range sortedKeys(c.want.body) {
		if b[k] != c.want.body[k] {
			return fmt.Sprintf("sent %s %s, not %v as %s", q.URI, q.Body, c.want.body[k], k)
		}
	}
	if strings.Contains(path, "/v1/import/") {
		var got []string
		xs, _ := b["path"].([]any)
		for _, x := range xs {
			got = append(got, fmt.Sprint(x))
		}
		want := append([]string{}, c.want.list...)
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Sprintf("asked to import %q, which is not %q", got, want)
		}
	}
	return ""
}

type ctlJob struct {
	Description, Error string
	Timing             struct{ Queued, Begin, End time.Time }
}

// checkStatus reads the tables of the status command.
func checkStatus(out string, reply []byte, all bool) string {
	var a struct{ FailedJobs, CurrentJobs, CompletedJobs []ctlJob }
	json.Unmarshal(reply, &a)
	sect := map[string][][]string{}
	count := map[string]string{}
	cur := ""
	for _, s := range strings.Split(out, "\n") {
		if i := strings.Index(s, " jobs: ("); i > 0 && !strings.Contains(s, "|") {
			cur = s[:i]
			count[cur] = strings.TrimSuffix(s[i+8:], " tracked)")
			continue
		}
		if cur == "" || !strings.Contains(s, "|") {
			continue
		}
		cells := strings.Split(s, "|")
		for i := range cells {
			cells[i] = squeeze(cells[i])
		}
		if cells[0] == "STATUS" {
			continue
		}
		if cells[0] != "" {
			sect[cur] = append(sect[cur], cells)
		} else if n := len(sect[cur]); n > 0 && len(cells) == len(sect[cur][n-1]) {
			for i := range cells {
				sect[cur][n-1][i] += cells[i]
			}
		}
	}
	stamp := func(t time.Time) string { return squeeze(t.Format("2006-01-02 15:04:05")) }
	check := func(title string, js []ctlJob, newest bool, row func(j *ctlJob) []string) string {
		sort.SliceStable(js, func(i, k int) bool {
			if newest {
				i, k = k, i
			}
			return js[i].Timing.Queued.Before(js[k].Timing.Queued)
		})
		for i := 1; i < len(js); i++ {
			if js[i].Timing.Queued.Equal(js[i-1].Timing.Queued) {
				return "" // any order will do
			}
		}
		n := ""
		if len(js) > 0 {
			n = fmt.Sprint(len(js))
		}
		if count[title] != n {
			return fmt.Sprintf("says %q for %d %s jobs", count[title], len(js), title)
		}
		if len(js) > 10 && !all {
			js = js[:10]
		}
		if len(sect[title]) != len(js) {
			return fmt.Sprintf("printed %d rows of %s jobs instead of %d", len(sect[title]), title, len(js))
		}
		for i := range js {
			want := row(&js[i])
			for k, s := range want {
				if s != "" && sect[title][i][k] != squeeze(s) {
					return fmt.Sprintf("printed %q in row %d of the %s jobs instead of %q", sect[title][i], i, title, want)
				}
			}
		}
		return ""
	}
	if d := check("Failed", a.FailedJobs, true, func(j *ctlJob) []string {
		return []string{"failed", stamp(j.Timing.End), j.Timing.End.Sub(j.Timing.Begin).String(), j.Description, j.Error}
	}); d != "" {
		return d
	}
	if d := check("Current/Active", a.CurrentJobs, false, func(j *ctlJob) []string {
		st := "running"
		if j.Timing.Begin.IsZero() {
			st = "queued"
		}
		return []string{st, stamp(j.Timing.Queued), "", j.Description}
	}); d != "" {
		return d
	}
	return check("Completed", a.CompletedJobs, true, func(j *ctlJob) []string {
		return []string{"success", stamp(j.Timing.End), j.Timing.End.Sub(j.Timing.Queued).String(), j.Timing.End.Sub(j.Timing.Begin).String(), j.Description}
	})
}
