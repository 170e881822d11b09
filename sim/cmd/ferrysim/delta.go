//go:build delta

package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"

	"verif.local/sim/rt"
	simos "verif.local/sim/shim/os"
	simexec "verif.local/sim/shim/os/exec"
)

func init() { specials["delta"] = deltaMain }

// dEntry is what a repository holds of one package name.
type dEntry struct {
	avail  map[string]bool
	deltas map[string]bool
}

type dPool struct {
	ref  uint64
	from string
	to   string
}

// dState is what the manager's interface reports.
type dState struct {
	repos map[string]map[string]*dEntry
	pool  map[string]*dPool
	skip  map[string]bool
}

// dPair is an ordered pair of releases of one name.
type dPair struct {
	old, new *Pkg
	id       string
	useless  bool
	members  map[string]string // files of the zip apart from the install tree
	tree     []string          // entries of the install tree, rendered
}

type dOp struct {
	kind, repo, other, name, src string
	rel                          int
	flag                         bool
	ids                          []*Pkg
}

func (o dOp) String() string {
	var ids []string
	for _, p := range o.ids {
		ids = append(ids, p.ID())
	}
	return fmt.Sprintf("%s %s %s %s %s %d %v %v", o.kind, o.repo, o.other, o.name, o.src, o.rel, o.flag, ids)
}

type deltaSim struct {
	*spec
	m      *core.Manager
	pkgs   []*Pkg
	names  []string
	pairs  map[string]*dPair
	model  *dState
	index  map[string]string // what each index must say, by repository; "" unknown
	excess map[string]uint64 // references an interrupted operation left
	loose  map[string]bool   // files an interrupted operation left or took away
	learn  string            // what was interrupted, while that is found out
	undone *dOp
	steps  int
	builds int // files made where deltas are produced
	good   map[string]string
}

const deltaRepos = 3

func deltaMain(r *Run) {
	s := &deltaSim{spec: newSpec(r, 0xde17a, "C21"), pairs: map[string]*dPair{}, index: map[string]string{}, model: &dState{}, good: map[string]string{}, excess: map[string]uint64{}, loose: map[string]bool{}}
	s.what = "the use of the manager"
	s.universe()
	s.steps = 4 + r.p.N
	s.see = func(op *rt.Op) {
		if op.Mut && strings.HasPrefix(op.Path, base+"/deltaBuilds/") && strings.Count(op.Path[len(base)+13:], "/") > 0 {
			s.builds++
		}
	}
	r.w.FS.Observe = func(op *rt.Op) {
		for _, p := range []string{op.Path, op.Path2} {
			if strings.HasSuffix(p, ".delta.eopkg") && (strings.HasPrefix(p, base+"/repo/") || strings.HasPrefix(p, base+"/pool/")) {
				s.published(p)
			}
		}
	}
	simos.MkdirAll("/sim/in", 0o755)
	for _, p := range s.pkgs {
		simos.WriteFile("/sim/in/"+p.ID(), p.Bytes(), 0o644)
	}
	for lives := 0; s.steps > 0 && lives < 40; lives++ {
		if !s.proc(s.session, 3000*sec) {
			return
		}
		s.disarm()
		s.w.MixCoarse(fmt.Sprintf("life %v %d", s.p.Killed, s.fired))
	}
	s.steps = 0
	s.proc(s.session, 3000*sec) // once more in peace
}

var deltaDirs = []string{"usr", "usr/bin", "usr/share/doc", "var/empty"}

// universe makes up packages whose releases share more or less of their files.
func (s *deltaSim) universe() {
	rnd := s.rnd
	all := []struct{ n, s string }{{"nano", "nano"}, {"nano-devel", "nano"}, {"libfoo", "libfoo"}}
	for _, d := range all[:1+rnd.Intn(3)] {
		s.names = append(s.names, d.n)
		var prev []TF
		n := 0
		fresh := func() string {
			n++
			if rnd.P(0.02) {
				return fmt.Sprintf("%s %d %s", d.n, n, strings.Repeat("long text ", 900))
			}
			return fmt.Sprintf("%s content %d %d", d.n, n, rnd.Intn(3))
		}
		links := rnd.P(0.4)
		link := func() int {
			if links && rnd.P(0.25) {
				return 1 + rnd.Intn(4)/3
			}
			return 0
		}
		for rel := 1; rel <= 3+rnd.Intn(4); rel++ {
			var t []TF
			switch k := rnd.Intn(10); {
			case k == 0 && rel > 1: // the same again
				t = append(t, prev...)
			case k == 1 || rel == 1: // nothing in common
				for i := 0; i < 1+rnd.Intn(5); i++ {
					t = append(t, TF{P: fmt.Sprintf("usr/lib/%s/f%d", d.n, i), C: fresh(), L: link()})
				}
			case k == 2 && rnd.P(0.4): // nothing at all
			default:
				for _, f := range prev {
					switch rnd.Intn(8) {
					case 0: // gone
					case 1: // changed
						if f.C != "" {
							f.C = fresh()
						}
						t = append(t, f)
					case 2: // moved
						f.P += "x"
						t = append(t, f)
					case 3: // twice
						g := f
						g.P += fmt.Sprintf(".copy%d", rel)
						t = append(t, f, g)
					default:
						t = append(t, f)
					}
				}
				for i := 0; i < rnd.Intn(3); i++ {
					p := fmt.Sprintf("usr/bin/%s%d-%d", d.n, rel, i)
					if rnd.P(0.05) {
						p = strings.Repeat("usr/share/deep/", 15) + p
					}
					t = append(t, TF{P: p, C: fresh(), L: link()})
				}
			}
			if rnd.P(0.25) { // two files whose places are exchanged
				var fs []int
				for i, f := range t {
					if f.C != "" {
						fs = append(fs, i)
					}
				}
				if len(fs) > 1 {
					a, b := fs[0], fs[len(fs)-1]
					t[a].C, t[b].C = t[b].C, t[a].C
				}
			}
			if rnd.P(0.3) {
				t = append([]TF{{P: deltaDirs[rnd.Intn(len(deltaDirs))]}}, t...)
			}
			// one entry per path
			seen := map[string]bool{}
			var u []TF
			for _, f := range t {
				if !seen[f.P] {
					seen[f.P] = true
					u = append(u, f)
				}
			}
			prev = u
			p := &Pkg{Name: d.n, Src: d.s, Ver: fmt.Sprintf("1.%d", rel), Rel: rel * (1 + rnd.Intn(1)), Text: rnd.Intn(9), Tree: u}
			if rnd.P(0.1) {
				p.Dist = "2"
			}
			s.pkgs = append(s.pkgs, p)
		}
	}
	for _, a := range s.pkgs {
		for _, b := range s.pkgs {
			if a.Name == b.Name && a.Rel < b.Rel && a.distRel() == b.distRel() {
				x := newPair(a, b)
				s.pairs[x.id] = x
			}
		}
	}
}

func treeLine(h *tar.Header, b []byte) string {
	return fmt.Sprintf("%c %s %s %o %d %d %d %s", h.Typeflag, h.Name, h.Linkname, h.Mode, h.Uid, h.Gid, h.ModTime.Unix(), sha1hex(b))
}

func readTree(b []byte) (lines []string, err error) {
	tr := tar.NewReader(bytes.NewReader(b))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return lines, nil
		}
		if err != nil {
			return nil, err
		}
		c, err := io.ReadAll(tr)
		if err != nil {
			return nil, err
		}
		lines = append(lines, treeLine(h, c))
	}
}

// newPair works out what the delta between two packages must be.
func newPair(a, b *Pkg) *dPair {
	x := &dPair{old: a, new: b, members: map[string]string{}}
	x.id = fmt.Sprintf("%s-%d-%d-%s-x86_64.delta.eopkg", b.Name, a.Rel, b.Rel, b.distRel())
	has := map[string]bool{}
	for _, f := range a.Tree {
		if f.C != "" {
			has[f.C] = true
		}
	}
	// an empty content counts as lacking, whatever the older package has
	var keep []TF
	for _, f := range b.Tree {
		if f.C == "" || !has[f.C] {
			keep = append(keep, f)
		}
	}
	x.useless = len(keep) == len(b.Tree)
	q := *b
	q.Tree = keep
	x.tree, _ = readTree(q.installTar())
	z, _ := zip.NewReader(bytes.NewReader(b.Bytes()), int64(len(b.Bytes())))
	for _, f := range z.File {
		if !strings.HasPrefix(f.Name, "install.tar") {
			rc, _ := f.Open()
			c, _ := io.ReadAll(rc)
			rc.Close()
			x.members[f.Name] = string(c)
		}
	}
	return x
}

// judge compares a delta file with what it must contain.
func (x *dPair) judge(b []byte) string {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return "is not a complete archive: " + err.Error()
	}
	n := 0
	tree := false
	for _, f := range z.File {
		rc, err := f.Open()
		if err != nil {
			return err.Error()
		}
		c, err := io.ReadAll(rc)
		rc.Close()
		if err != nil {
			return f.Name + ": " + err.Error()
		}
		if f.Name == "install.tar.xz" && !tree {
			tree = true
			t, err := simexec.Unpack("XZ", c)
			if err != nil {
				return "install.tar.xz: " + err.Error()
			}
			l, err := readTree(t)
			if err != nil {
				return "install.tar.xz: " + err.Error()
			}
			if len(t)%512 != 0 || len(t) < 1024 || !bytes.Equal(t[len(t)-1024:], make([]byte, 1024)) {
				return "install.tar.xz: the archive lacks its end"
			}
			if got, want := sortedCopy(l), sortedCopy(x.tree); strings.Join(got, "\n") != strings.Join(want, "\n") {
				return fmt.Sprintf("contains the files\n  %s\ninstead of\n  %s", strings.Join(got, "\n  "), strings.Join(want, "\n  "))
			}
			continue
		}
		if w, ok := x.members[f.Name]; !ok || w != string(c) {
			return fmt.Sprintf("contains %s, which is not as in the newer package", f.Name)
		}
		n++
	}
	if n != len(x.members) {
		return fmt.Sprintf("contains %d of the %d files of the newer package's metadata", n, len(x.members))
	}
	if !tree && len(x.tree) > 0 {
		return "contains no files at all"
	}
	return ""
}

func sortedCopy(l []string) []string {
	c := append([]string{}, l...)
	sort.Strings(c)
	return c
}

// published judges a delta at a place where it can be downloaded.
func (s *deltaSim) published(p string) {
	n := s.w.FS.Lookup(p)
	if n == nil || n.IsDir() || s.r.viol != nil {
		return
	}
	id := path.Base(p)
	x := s.pairs[id]
	if x == nil {
		s.r.fail([]string{"C21"}, "unknown", "a delta %s appeared, for which there are no packages", p)
		return
	}
	k := id + " " + s.r.shaOf(n)
	why, ok := s.good[k]
	if !ok {
		why = x.judge(n.Data)
		s.good[k] = why
		s.r.stats["deltas"]++
	}
	if why != "" {
		s.r.fail([]string{"C21", "C06"}, "content", "%s between %s and %s %s", p, x.old.ID(), x.new.ID(), why)
	}
}

func (s *deltaSim) session(p *rt.Proc) {
	s.m = nil
	f := s.fired
	m, err := core.NewManager(base)
	if err != nil {
		if s.fired == f {
			s.r.fail([]string{"C13", "C15"}, "open", "the manager cannot be started any more: %v", err)
		}
		return
	}
	s.m = m
	now := s.observe()
	if now == nil {
		return
	}
	if s.model.repos == nil {
		s.model = now
	}
	if o := s.undone; o != nil {
		// what was interrupted is run again, as the daemon or its user would
		s.undone = nil
		s.index[o.target()] = ""
		s.learn = o.kind
		if !s.consistent(now) {
			return
		}
		s.model = now
		if !s.step(*o, true) {
			return
		}
		s.learn = ""
	} else if d := s.model.diff(now); d != "" {
		s.r.fail([]string{"C21", "C13"}, "restart", "a restart changes the state: %s", d)
		return
	}
	for s.steps > 0 {
		s.steps--
		o, ok := s.choose()
		if !ok {
			continue
		}
		if s.rnd.P(0.3) {
			s.arm(0.6, 0.6, []int{8, 30, 80}[s.rnd.Intn(3)])
		} else if s.rnd.P(0.1) { // the disk fills up as the archives are written
			s.killN, s.errN, s.errC, s.err = 0, 1+s.rnd.Intn(5), 1+s.rnd.Intn(2), syscall.ENOSPC
			s.only = func(op *rt.Op) bool {
				return op.Kind == "write" && (strings.HasSuffix(op.Path, ".delta.eopkg") || strings.HasSuffix(op.Path, ".tar") || strings.HasSuffix(op.Path, ".new"))
			}
		}
		if !s.step(o, false) {
			return
		}
		if s.fired > f || s.rnd.P(0.06) {
			break
		}
	}
	if s.rnd.P(0.7) {
		m.Close()
	}
}

func (s *deltaSim) choose() (o dOp, ok bool) {
	rnd := s.rnd
	repos := sortedKeys(s.model.repos)
	if len(repos) == 0 || rnd.P(0.06) && len(repos) < deltaRepos {
		o.kind, o.repo = "create", string(rune('a'+rnd.Intn(deltaRepos)))
		return o, s.model.repos[o.repo] == nil
	}
	o.repo = repos[rnd.Intn(len(repos))]
	switch k := rnd.Intn(30); {
	case k < 7:
		o.kind = "add"
		o.flag = rnd.P(0.3)
		for i := 0; i < 1+rnd.Intn(4); i++ {
			o.ids = append(o.ids, s.pkgs[rnd.Intn(len(s.pkgs))])
		}
		if rnd.P(0.4) { // a run of releases
			o.ids = nil
			n := s.names[rnd.Intn(len(s.names))]
			for _, p := range s.pkgs {
				if p.Name == n && rnd.P(0.7) {
					o.ids = append(o.ids, p)
				}
			}
		}
		return o, len(o.ids) > 0
	case k < 17:
		o.kind = "delta"
		o.name = s.names[rnd.Intn(len(s.names))]
		o.flag = rnd.P(0.7)
	case k < 20:
		o.kind = "rmsrc"
		p := s.pkgs[rnd.Intn(len(s.pkgs))]
		o.src, o.rel = p.Src, p.Rel
		if rnd.P(0.1) {
			o.rel = -1
		}
	case k < 22:
		o.kind = "trim"
		o.rel = 1 + rnd.Intn(3)
	case k < 24:
		o.kind = "clone"
		o.flag = rnd.P(0.7)
		o.other = string(rune('a' + rnd.Intn(deltaRepos)))
		return o, s.model.repos[o.other] == nil
	case k < 26:
		o.kind = "pull"
		o.other = repos[rnd.Intn(len(repos))]
		return o, o.other != o.repo
	case k < 27:
		o.kind = "copy"
		o.other = repos[rnd.Intn(len(repos))]
		p := s.pkgs[rnd.Intn(len(s.pkgs))]
		o.src, o.rel, o.flag = p.Src, p.Rel, rnd.P(0.3)
		return o, o.other != o.repo
	case k < 28:
		o.kind = "delete"
		return o, rnd.P(0.6)
	default:
		o.kind = "index"
	}
	return o, true
}

func (s *deltaSim) run(o dOp) error {
	switch o.kind {
	case "create":
		return s.m.CreateRepo(o.repo)
	case "add":
		var in []string
		for _, p := range o.ids {
			in = append(in, "/sim/in/"+p.ID())
		}
		return s.m.AddPackages(o.repo, in, o.flag)
	case "delta":
		e := jobs.NewDeltaJob(o.repo, o.name)
		if o.flag {
			e = jobs.NewDeltaIndexJob(o.repo, o.name)
		}
		h, err := jobs.NewDeltaJobHandler(e, o.flag)
		if err != nil {
			return err
		}
		return h.Execute(nil, s.m)
	case "rmsrc":
		return s.m.RemoveSource(o.repo, o.src, o.rel)
	case "trim":
		return s.m.TrimPackages(o.repo, o.rel)
	case "clone":
		return s.m.CloneRepo(o.repo, o.other, o.flag)
	case "pull":
		_, err := s.m.PullRepo(o.other, o.repo)
		return err
	case "copy":
		return s.m.CopySource(o.repo, o.other, o.src, o.rel, o.flag)
	case "delete":
		return s.m.DeleteRepo(o.repo)
	case "index":
		return s.m.Index(o.repo)
	}
	return nil
}

func (o dOp) target() string {
	if o.kind == "clone" || o.kind == "copy" {
		return o.other
	}
	return o.repo
}

// step performs one operation and judges what it did. It is false when the process must end.
func (s *deltaSim) step(o dOp, again bool) bool {
	s.w.Tracef("step: %v", o)
	s.w.MixCoarse(o.kind)
	f := s.fired
	s.undone = &o
	s.builds = 0
	before := s.model
	need := s.needs(o)
	err := s.run(o)
	s.disarm()
	s.only = nil
	s.r.stats["ops"]++
	if s.fired > f {
		if err == nil { // it did not matter, but what was tolerated need not be complete
			s.w.Tracef("step: done in spite of a fault")
		}
		return false
	}
	if s.r.viol != nil {
		return false
	}
	s.undone = nil
	now := s.observe()
	if now == nil {
		return false
	}
	if o.kind == "delta" && err != nil && before.repos[o.repo][o.name] != nil {
		s.r.fail([]string{"C21", "C15"}, "failed", "producing the deltas of %s in %s fails without a fault: %v", o.name, o.repo, err)
		return false
	}
	if o.kind == "delta" && err == nil && need == 0 && s.builds > 0 {
		s.r.fail([]string{"C21"}, "retried", "deltas of %s in %s were produced although all of them exist or are known to be useless", o.name, o.repo)
		return false
	}
	if again {
		s.index[o.target()] = ""
	}
	if d := s.expect(o, err, before, now); d != "" {
		s.r.fail([]string{"C21"}, "deltas", "after '%v' (%v): %s", o, err, d)
		return false
	}
	s.model = now
	if !s.consistent(now) {
		return false
	}
	s.indexes(o, err, before, again)
	return s.r.viol == nil
}

// order gives the packages of an entry by release.
func (s *deltaSim) order(e *dEntry) (l []*Pkg) {
	for _, p := range s.pkgs {
		if e != nil && e.avail[p.ID()] {
			l = append(l, p)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Rel < l[j].Rel })
	return
}

func (s *deltaSim) wanted(e *dEntry) (l []*dPair) {
	ps := s.order(e)
	for i := 0; i+1 < len(ps); i++ {
		for _, x := range s.pairs {
			if x.old == ps[i] && x.new == ps[len(ps)-1] {
				l = append(l, x)
			}
		}
	}
	return
}

// leads tells whether deltas to the newest release are held.
func (s *deltaSim) leads(r, name string) bool {
	e := s.model.repos[r][name]
	for _, x := range s.wanted(e) {
		if e.deltas[x.id] {
			return true
		}
	}
	return false
}

// needs counts the deltas a job has to produce.
func (s *deltaSim) needs(o dOp) (n int) {
	if o.kind != "delta" {
		return 0
	}
	e := s.model.repos[o.repo][o.name]
	for _, x := range s.wanted(e) {
		if !e.deltas[x.id] && !s.model.skip[x.id] && s.model.pool[x.id] == nil {
			n++
		}
	}
	return
}

// expect compares the deltas held before and after an operation.
func (s *deltaSim) expect(o dOp, err error, a, b *dState) string {
	t := o.target()
	for _, r := range sortedKeys(a.repos) {
		if r == t {
			continue
		}
		if d := diffRepo(a.repos[r], b.repos[r]); d != "" {
			return fmt.Sprintf("repository %s, which is not its target: %s", r, d)
		}
	}
	skip := map[string]bool{}
	for x := range a.skip {
		skip[x] = true
	}
	for _, n := range sortedKeys(b.repos[t]) {
		e := b.repos[t][n]
		want := map[string]bool{}
		from := a.repos[t][n]
		if o.kind == "clone" && err == nil {
			from = nil
			if o.flag {
				from = a.repos[o.repo][n]
			}
		}
		if from != nil {
			for d := range from.deltas {
				if x := s.pairs[d]; x != nil && e.avail[x.old.ID()] && e.avail[x.new.ID()] {
					want[d] = true
				}
			}
		}
		if o.kind == "delta" && n == o.name {
			for _, x := range s.wanted(e) {
				if x.useless {
					skip[x.id] = true
				} else {
					want[x.id] = true
				}
			}
		}
		if g, w := strings.Join(sortedKeys(e.deltas), " "), strings.Join(sortedKeys(want), " "); g != w {
			return fmt.Sprintf("repository %s holds the deltas [%s] of %s instead of [%s]", t, g, n, w)
		}
	}
	if g, w := strings.Join(sortedKeys(b.skip), " "), strings.Join(sortedKeys(skip), " "); g != w {
		return fmt.Sprintf("the pairs remembered as useless are [%s] instead of [%s]", g, w)
	}
	return ""
}

// observe collects the state by way of the manager's interface; nil when that fails.
func (s *deltaSim) observe() *dState {
	f := s.fired
	bad := func(what string, err error) *dState {
		if s.fired == f {
			s.r.fail([]string{"C21", "C13", "C05"}, "observe", "%s fails: %v", what, err)
		}
		return nil
	}
	st := &dState{repos: map[string]map[string]*dEntry{}, pool: map[string]*dPool{}, skip: map[string]bool{}}
	items, err := s.m.GetPoolItems()
	if err != nil {
		return bad("listing the pool", err)
	}
	for _, i := range items {
		e := &dPool{ref: i.RefCount}
		if i.Delta != nil {
			e.from, e.to = i.Delta.FromID, i.Delta.ToID
			x := s.pairs[i.Name]
			if x == nil || x.old.ID() != e.from || x.new.ID() != e.to || i.Delta.FromRelease != x.old.Rel || i.Delta.ToRelease != x.new.Rel {
				s.r.fail([]string{"C21"}, "mapping", "pool item %s is recorded as the delta from %s (%d) to %s (%d)", i.Name, e.from, i.Delta.FromRelease, e.to, i.Delta.ToRelease)
				return nil
			}
			if n := s.w.FS.Lookup(base + "/pool/" + x.new.Dir() + "/" + i.Name); n != nil {
				if i.Meta.PackageSize != int64(len(n.Data)) || i.Meta.PackageHash != s.r.shaOf(n) || i.Meta.PackageURI != x.new.Dir()+"/"+i.Name {
					s.r.fail([]string{"C21", "C07"}, "meta", "pool item %s is recorded with size %d, hash %s and location %s; it has %d bytes and hash %s", i.Name, i.Meta.PackageSize, i.Meta.PackageHash, i.Meta.PackageURI, len(n.Data), s.r.shaOf(n))
					return nil
				}
			}
		} else if s.pairs[i.Name] != nil {
			s.r.fail([]string{"C21"}, "mapping", "pool item %s is a delta but not recorded as one", i.Name)
			return nil
		}
		st.pool[i.Name] = e
	}
	for _, id := range sortedKeys(s.pairs) {
		if s.m.GetDeltaFailed(id) {
			st.skip[id] = true
		}
	}
	repos, err := s.m.GetRepos()
	if err != nil {
		return bad("listing the repositories", err)
	}
	for _, r := range repos {
		st.repos[r.ID] = map[string]*dEntry{}
		names, err := s.m.GetPackageNames(r.ID)
		if err != nil {
			return bad("listing the packages", err)
		}
		for _, n := range names {
			e := &dEntry{avail: map[string]bool{}, deltas: map[string]bool{}}
			st.repos[r.ID][n] = e
			pk, err := s.m.GetPackages(r.ID, n)
			if err != nil {
				return bad("listing the packages of "+n, err)
			}
			for _, p := range pk {
				e.avail[path.Base(p.PackageURI)] = true
			}
			for _, id := range sortedKeys(s.pairs) {
				if s.pairs[id].new.Name != n {
					continue
				}
				has, err := s.m.HasDelta(r.ID, n, id)
				if err != nil {
					return bad("looking for a delta of "+n, err)
				}
				if has {
					e.deltas[id] = true
				}
			}
		}
	}
	if s.fired > f {
		return nil
	}
	return st
}

func diffRepo(a, b map[string]*dEntry) string {
	for _, n := range sortedKeys(a) {
		if b[n] == nil {
			return "does not have " + n + " any more"
		}
		for _, w := range [][2]map[string]bool{{a[n].avail, b[n].avail}, {a[n].deltas, b[n].deltas}} {
			if x, y := strings.Join(sortedKeys(w[0]), " "), strings.Join(sortedKeys(w[1]), " "); x != y {
				return fmt.Sprintf("has [%s] instead of [%s]", y, x)
			}
		}
	}
	for _, n := range sortedKeys(b) {
		if a[n] == nil {
			return "has " + n + " in addition"
		}
	}
	return ""
}

func (a *dState) diff(b *dState) string {
	if x, y := strings.Join(sortedKeys(a.repos), " "), strings.Join(sortedKeys(b.repos), " "); x != y {
		return fmt.Sprintf("the repositories are [%s] instead of [%s]", y, x)
	}
	for _, r := range sortedKeys(a.repos) {
		if d := diffRepo(a.repos[r], b.repos[r]); d != "" {
			return "repository " + r + " " + d
		}
	}
	for _, p := range sortedKeys(a.pool) {
		if b.pool[p] == nil || b.pool[p].ref != a.pool[p].ref {
			return "the references of " + p + " differ"
		}
	}
	if len(a.pool) != len(b.pool) || strings.Join(sortedKeys(a.skip), " ") != strings.Join(sortedKeys(b.skip), " ") {
		return "the pool or the record of useless pairs differs"
	}
	return ""
}

var removals = map[string]bool{"rmsrc": true, "trim": true, "delete": true}

// tolerate notes what interrupted operations left behind.
func (s *deltaSim) tolerate(p string, learn bool) bool {
	if learn {
		s.loose[p] = true
	}
	return s.loose[p]
}

// consistent relates references, entries and files to each other.
func (s *deltaSim) consistent(st *dState) bool {
	s.r.stats["checks"]++
	fail := func(tags []string, kind, f string, a ...any) bool {
		s.r.fail(tags, kind, f, a...)
		return false
	}
	held := map[string]uint64{}
	for _, r := range sortedKeys(st.repos) {
		listed := map[string]bool{}
		for _, n := range sortedKeys(st.repos[r]) {
			e := st.repos[r][n]
			dir := ""
			for _, p := range s.pkgs {
				if p.Name == n {
					dir = p.Dir()
				}
			}
			for _, d := range sortedKeys(e.deltas) {
				held[d]++
				x := s.pairs[d]
				if !e.avail[x.old.ID()] || !e.avail[x.new.ID()] {
					return fail([]string{"C21"}, "stale", "repository %s holds %s although it does not have both %s and %s", r, d, x.old.ID(), x.new.ID())
				}
			}
			for _, m := range []map[string]bool{e.avail, e.deltas} {
				for _, id := range sortedKeys(m) {
					if s.pairs[id] == nil {
						held[id]++
					}
					if st.pool[id] == nil {
						return fail([]string{"C21", "C05"}, "nopool", "repository %s lists %s, which is not in the pool", r, id)
					}
					listed[dir+"/"+id] = true
					for _, p := range []string{base + "/repo/" + r + "/" + dir + "/" + id, base + "/pool/" + dir + "/" + id} {
						if s.w.FS.Lookup(p) == nil && !s.tolerate(p, removals[s.learn]) {
							return fail([]string{"C21", "C06"}, "nofile", "repository %s lists %s, but %s does not exist", r, id, p)
						}
					}
				}
			}
		}
		s.w.FS.WalkTree(base+"/repo/"+r, func(p string, n *rt.Inode) {
			if strings.HasSuffix(p, ".delta.eopkg") && !listed[p[len(base)+len("/repo/")+len(r)+1:]] && s.r.viol == nil && !s.tolerate(p, s.learn != "") {
				fail([]string{"C21"}, "extra", "%s is not a delta the repository holds", p)
			}
		})
	}
	// nothing stays in the work directories
	for _, d := range []string{"deltaBuilds", "deltaStaging"} {
		s.w.FS.WalkTree(base+"/"+d, func(p string, n *rt.Inode) {
			rel := strings.TrimPrefix(strings.TrimPrefix(p, base+"/"+d), "/")
			if strings.Contains(rel, "/") && s.r.viol == nil && !s.tolerate(p, s.learn != "") {
				fail([]string{"C21"}, "work", "%s was left in the work directory", p)
			}
		})
	}
	for _, id := range sortedKeys(st.pool) {
		ref := st.pool[id].ref
		if s.learn != "" && ref > held[id] {
			s.excess[id] = ref - held[id]
		}
		if ref != held[id]+s.excess[id] {
			return fail([]string{"C21", "C05"}, "refs", "pool item %s has %d references and is held by %d repositories (%d were left by interrupted operations)", id, ref, held[id], s.excess[id])
		}
	}
	for _, id := range sortedKeys(s.excess) {
		if st.pool[id] == nil {
			delete(s.excess, id)
		}
	}
	s.w.FS.WalkTree(base+"/pool", func(p string, n *rt.Inode) {
		if strings.HasSuffix(p, ".delta.eopkg") && s.r.viol == nil {
			s.published(p)
			if st.pool[path.Base(p)] == nil && s.r.viol == nil && !s.tolerate(p, s.learn != "") {
				fail([]string{"C21", "C05"}, "extra", "%s is held by no repository", p)
			}
		}
	})
	return s.r.viol == nil
}

// indexes compares the index of every repository with what it must list.
func (s *deltaSim) indexes(o dOp, err error, before *dState, again bool) {
	t := o.target()
	written, maybe := err == nil, false
	switch {
	case o.kind == "copy" && o.flag, o.kind == "delta" && !o.flag:
		written = false
	case o.kind == "delta":
		// asked for when something changed
		maybe = written
		written = written && (before.repos[t][o.name] != nil && len(before.repos[t][o.name].deltas) != len(s.model.repos[t][o.name].deltas) || again && s.leads(t, o.name))
	}
	if o.kind == "delete" {
		delete(s.index, t)
	}
	if (written || maybe) && s.model.repos[t] != nil {
		var l []string
		for _, n := range sortedKeys(s.model.repos[t]) {
			e := s.model.repos[t][n]
			ps := s.order(e)
			if len(ps) == 0 {
				continue
			}
			tip := ps[len(ps)-1]
			l = append(l, tip.URI())
			var ds []string
			for _, d := range sortedKeys(e.deltas) {
				if x := s.pairs[d]; x.new.Rel == tip.Rel {
					n := s.w.FS.Lookup(base + "/pool/" + tip.Dir() + "/" + d)
					if n == nil {
						continue
					}
					ds = append(ds, fmt.Sprintf("[releaseFrom=%d]|%s|%s|%s", x.old.Rel, tip.Dir()+"/"+d, strconv.Itoa(len(n.Data)), s.r.shaOf(n)))
				}
			}
			sort.Strings(ds)
			l = append(l, ds...)
		}
		// without a change there need be no new index
		if w := "=" + strings.Join(l, "\n"); written || s.index[t] != "" && s.shown(t) == w {
			s.index[t] = w
		}
	}
	for _, r := range sortedKeys(s.index) {
		if s.index[r] == "" {
			continue
		}
		g := s.shown(r)
		if g == "" {
			return
		}
		if g != s.index[r] {
			s.r.fail([]string{"C21", "C07"}, "index", "after '%v' the index of %s lists\n  %s\ninstead of\n  %s", o, r, strings.ReplaceAll(g[1:], "\n", "\n  "), strings.ReplaceAll(s.index[r][1:], "\n", "\n  "))
			return
		}
		s.r.stats["indexes"]++
	}
}

// shown renders what the index of a repository lists.
func (s *deltaSim) shown(r string) string {
	n := s.w.FS.Lookup(base + "/repo/" + r + "/eopkg-index.xml")
	if n == nil {
		s.r.fail([]string{"C21", "C08"}, "noindex", "repository %s has no index", r)
		return ""
	}
	v := parseIndex(n.Data)
	if v.err != "" {
		s.r.fail([]string{"C21", "C08"}, "index", "the index of %s: %s", r, v.err)
		return ""
	}
	byName := map[string][]string{}
	for _, p := range v.pkgs {
		ds := append([]string{}, p.deltas...)
		sort.Strings(ds)
		byName[p.name] = append(append(byName[p.name], p.uri), ds...)
	}
	var l []string
	for _, k := range sortedKeys(byName) {
		l = append(l, byName[k]...)
	}
	return "=" + strings.Join(l, "\n")
}
