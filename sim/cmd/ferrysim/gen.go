package main

import (
	"fmt"
	"sort"
	"strings"

	"verif.local/sim/rt"
)

// The scenario generators. One seed is one plan.

type gen struct {
	r       *rt.Rand
	p       *Plan
	m       *Model
	repos   []string
	nUp     int
	upPhase int
	upUsed  map[int]bool
	texts   int
	focus   map[string]int // weights of the operations
	used    map[int]bool   // packages already uploaded in the phase
	noDel   map[string]bool
	dead    map[string]bool
	kills   bool
}

var pkgNames = []struct{ n, s string }{
	{"nano", "nano"}, {"nano-dbginfo", "nano"}, {"libfoo", "libfoo"}, {"libfoo-devel", "libfoo"}, {"a", "a"}, {"ab", "ab"}, {"a-b", "a"},
	{"zlib", "Zlib"}, {"x", "lib"}, {"libfoo-dbginfo", "libfoo"}, {"nanorc", "nano"}, {"abc", "ab"},
}

// oddPkgNames replace them now and then: real ones ("gtk+") and improbable ones.
var oddPkgNames = []struct{ n, s string }{
	{"gtk+", "gtk+"}, {"libstdc++", "libstdc++"}, {"R&D", "r&d"}, {"a b", "a b"}, {"c#", "C#"}, {"50%", "50%"}, {"éditeur", "éditeur"}, {"libécho", "libécho"},
	{"x'y", "x'y"}, {"日本", "日本"}, {"NANO", "NANO"}, {"..a", "..a"}, {"-v", "-v"}, {"*", "*"}, {"a?b", "[ab]"}, {"<x>", "<x>"}, {"q\"q", "q\"q"}, {"lib", "lib"},
	{"lib-", "lib-"}, {"Ünï-dbginfo", "Ünï"}, {".nano.new", ".nano"}, {"back\\slash", "back\\slash"}, {"xn", "libİx"}, {"-dbginfo", "dbg"}, {"nano.new", "nano.new"},
}
var repoNames = []string{"unstable", "stable", "a", "ab", "a-b", "test", "un"}

func (g *gen) n(k int) int            { return g.r.Intn(k) }
func (g *gen) p1(x float64) bool      { return g.r.P(x) }
func (g *gen) between(lo, hi int) int { return lo + g.r.Intn(hi-lo+1) }
func (g *gen) pick(l []string) string { return l[g.r.Intn(len(l))] }
func (g *gen) some(l []int, k int) []int {
	l = append([]int{}, l...)
	for i := range l {
		j := i + g.r.Intn(len(l)-i)
		l[i], l[j] = l[j], l[i]
	}
	if k > len(l) {
		k = len(l)
	}
	return l[:k]
}

func newGen(profile string, seed uint64) *gen {
	g := &gen{r: rt.NewRand(seed*0x9E3779B97F4A7C15 + 77), focus: map[string]int{}, used: map[int]bool{}, noDel: map[string]bool{}, dead: map[string]bool{}}
	p := &Plan{Profile: profile, Seed: seed}
	g.p = p
	switch g.n(4) {
	case 0:
		p.PreemptN = 0
	case 1:
		p.PreemptN = 40
	default:
		p.PreemptN = 200
	}
	p.PickP = []float64{0, 0.2, 0.6, 1}[g.n(4)]
	p.Jobs = []int{0, 1, 2, 4}[g.n(4)]
	p.TermEnd = g.p1(0.5)
	p.Activated = g.p1(0.12)
	if g.p1(0.2) {
		p.DBBuf = []int{1000, 5000, 20000, 40000}[g.n(4)]
	}
	p.DBCold = g.p1(0.15)
	return g
}

// universe invents the packages of the plan.
func (g *gen) universe(names, rels int) {
	perm := g.some([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, names)
	sort.Ints(perm)
	odd, taken := 0.0, map[string]bool{}
	renamed := 0.0
	if g.p1(0.08) {
		renamed = 0.4
	}
	if g.p1(0.12) {
		odd = 0.5
	}
	for _, i := range perm {
		rel := 0
		nm := pkgNames[i]
		if odd > 0 && g.p1(odd) {
			if o := oddPkgNames[g.n(len(oddPkgNames))]; !taken[o.n] {
				taken[o.n] = true
				nm = o
			}
		}
		for k := 0; k < 1+g.n(rels); k++ {
			rel += 1 + g.n(3)
			if rel >= 8 && g.p1(0.5) {
				rel += 3 // crosses the decimal width
			}
			p := Pkg{Name: nm.n, Src: nm.s, Ver: fmt.Sprintf("%d.%d", 1+g.n(3), g.n(12)), Rel: rel, Text: 1 + g.n(1000)}
			if g.p1(0.1) {
				p.Dist = "2"
			}
			if renamed > 0 && g.p1(renamed) {
				p.File = fmt.Sprintf(g.pick([]string{"pkg%d.eopkg", "%d-renamed-1-1-1-x86_64.eopkg", "p %d.eopkg"}), len(g.p.Pkgs))
			}
			g.p.Pkgs = append(g.p.Pkgs, p)
		}
	}
	if g.p1(0.15) { // built again without a new release: the same file name, another content
		for k := 0; k < 1+g.n(3); k++ {
			q := g.p.Pkgs[g.n(len(g.p.Pkgs))]
			q.Text += 1000 + k
			g.p.Pkgs = append(g.p.Pkgs, q)
		}
	}
	u := map[string]*Pkg{}
	for i := range g.p.Pkgs {
		u[g.p.Pkgs[i].ID()] = &g.p.Pkgs[i]
	}
	g.m = newModel(u)
}

func (g *gen) reindex() {
	u := map[string]*Pkg{}
	for i := range g.p.Pkgs {
		if q := u[g.p.Pkgs[i].ID()]; q == nil || g.p.Pkgs[i].Bad == "" {
			u[g.p.Pkgs[i].ID()] = &g.p.Pkgs[i]
		}
	}
	g.m.u = u
}

func (g *gen) live() []string { return sortedKeys(g.m.repos) }

func (g *gen) anyRepo() string {
	l := g.live()
	if len(l) == 0 || g.p1(0.04) {
		return g.pick(g.repos)
	}
	return g.pick(l)
}
func (g *gen) newRepo() string {
	var l []string
	for _, x := range g.repos {
		if g.m.repos[x] == nil && !g.dead[x] {
			l = append(l, x)
		}
	}
	if len(l) == 0 || g.p1(0.05) {
		return g.pick(g.repos)
	}
	return g.pick(l)
}

// use notes an upload of a package; there is one upload of a file name only.
func (g *gen) use(i int) {
	for k := range g.p.Pkgs {
		if k == i || g.p.Pkgs[k].ID() == g.p.Pkgs[i].ID() {
			g.used[k] = true
		}
	}
}

func (g *gen) goodPkgs() []int {
	var o []int
	for i := range g.p.Pkgs {
		if g.p.Pkgs[i].Bad == "" {
			o = append(o, i)
		}
	}
	return o
}

func (g *gen) srcRel() (string, int) {
	p := &g.p.Pkgs[g.n(len(g.p.Pkgs))]
	rel := p.Rel
	switch g.n(5) {
	case 0:
		rel = -1
	case 1:
		rel = 0
	case 2:
		if g.p1(0.3) {
			rel = p.Rel + 1
		}
	}
	src := p.Src
	if g.p1(0.05) {
		src = string([]rune(src)[:1])
	}
	return src, rel
}

var defaultFocus = map[string]int{"create": 3, "import": 8, "upload": 5, "clone": 3, "pull": 4, "copy": 4, "rmsrc": 4, "trim": 3, "trimobs": 2, "delete": 1, "index": 2, "delta": 1, "list": 2, "status": 2, "sleep": 1}

func (g *gen) weights(f map[string]int) { g.focus = f }

func merge(a map[string]int, b map[string]int) map[string]int {
	o := map[string]int{}
	for k, v := range a {
		o[k] = v
	}
	for k, v := range b {
		o[k] = v
	}
	return o
}

func (g *gen) opKind() string {
	tot := 0
	ks := sortedKeys(g.focus)
	for _, k := range ks {
		tot += g.focus[k]
	}
	x := g.n(tot)
	for _, k := range ks {
		if x < g.focus[k] {
			return k
		}
		x -= g.focus[k]
	}
	return ks[0]
}

// step invents one request that makes sense in the generator's model, and applies it there.
func (g *gen) step() Step {
	for try := 0; ; try++ {
		s := g.step1(g.opKind())
		if s.Op == "" {
			if try > 30 {
				return Step{Op: "status"}
			}
			continue
		}
		if s.isJob() {
			c := g.m.clone()
			err := c.apply(&s, g.p.Pkgs)
			// Mostly requests that succeed.
			if err != nil && try < 8 && g.p1(0.8) {
				continue
			}
			g.m = c
			g.m.purge(nil)
		}
		return s
	}
}

func (g *gen) step1(op string) Step {
	s := Step{Op: op}
	switch op {
	case "create":
		s.Repo = g.newRepo()
	case "delete":
		if len(g.m.repos) < 2 {
			return Step{}
		}
		s.Repo = g.anyRepo()
		if g.noDel[s.Repo] {
			return Step{}
		}
		if g.kills {
			g.dead[s.Repo] = true
		}
	case "import":
		s.Repo = g.anyRepo()
		s.Pkgs = g.some(g.goodPkgs(), 1+g.n(4))
		if g.p1(0.1) {
			s.Pad = 1 + g.n(3)
		}
		if g.p1(0.08) {
			s.Name = g.pick([]string{"rel", "abs"})
		}
	case "upload":
		s.Repo = g.anyRepo()
		r := g.m.repos[s.Repo]
		names := map[string]bool{}
		multi := g.p1(0.2) // several releases of a package
		for _, i := range g.some(g.goodPkgs(), len(g.p.Pkgs)) {
			p := &g.p.Pkgs[i]
			if g.used[i] || multi && len(names) > 0 && !names[p.Name] && g.p1(0.7) || !multi && names[p.Name] {
				continue
			}
			if r != nil {
				if e := r.names[p.Name]; e != nil && g.m.u[e.pub].Rel >= p.Rel && g.p1(0.93) {
					continue
				}
			}
			twin := false
			for _, j := range s.Pkgs {
				twin = twin || g.p.Pkgs[j].ID() == p.ID()
			}
			if twin {
				continue
			}
			names[p.Name] = true
			g.use(i)
			s.Pkgs = append(s.Pkgs, i)
			if len(s.Pkgs) >= 1+g.n(3) {
				break
			}
		}
		if len(s.Pkgs) == 0 {
			return Step{}
		}
		if g.p1(0.7) {
			sort.SliceStable(s.Pkgs, func(a, b int) bool { return g.p.Pkgs[s.Pkgs[a]].Rel < g.p.Pkgs[s.Pkgs[b]].Rel })
		} else if g.p1(0.1) {
			s.Pkgs = append(s.Pkgs, s.Pkgs[g.n(len(s.Pkgs))])
		}
		g.nUp++
		s.Name = fmt.Sprintf("up%d.tram", g.nUp)
		s.Rel = g.n(2)
		if g.p1(0.2) {
			s.Pad = 1 + g.n(3)
		}
	case "clone":
		s.Repo, s.Repo2 = g.anyRepo(), g.newRepo()
		s.Flag = g.p1(0.5)
	case "pull":
		s.Repo, s.Repo2 = g.anyRepo(), g.anyRepo()
		if s.Repo == s.Repo2 && g.p1(0.9) {
			return Step{}
		}
	case "copy":
		s.Repo, s.Repo2 = g.anyRepo(), g.anyRepo()
		s.Src, s.Rel = g.srcRel()
		s.Flag = g.p1(0.4)
	case "rmsrc":
		s.Repo = g.anyRepo()
		s.Src, s.Rel = g.srcRel()
	case "trim":
		s.Repo = g.anyRepo()
		s.Rel = g.n(4)
		if s.Rel == 0 && g.p1(0.7) {
			s.Rel = 1
		}
		if g.p1(0.05) {
			s.Rel = -1
		}
	case "trimobs":
		s.Repo = g.anyRepo()
	case "index", "delta":
		s.Repo = g.anyRepo()
	case "sleep":
		s.Ms = []int{10, 400, 2100, 5000}[g.n(4)]
	}
	return s
}

// --- assets ---

func (g *gen) lang(tag string, k int) string {
	var b strings.Builder
	ls := []string{"", "de", "ja"}
	for i := 0; i < k; i++ {
		a := ""
		if ls[i%3] != "" {
			a = ` xml:lang="` + ls[i%3] + `"`
		}
		fmt.Fprintf(&b, "<%s%s>%s</%s>", tag, a, xe(strings.Join(strings.Fields(textBits[g.n(len(textBits))]), " ")), tag)
	}
	return b.String()
}

func (g *gen) distribution() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s<PISI><SourceName>Solus</SourceName>%s<Version>%d</Version><Type>main</Type><BinaryName>Solus</BinaryName><Obsoletes>", xmlHead, g.lang("Description", 1+g.n(2)), 1+g.n(3))
	seen := map[string]bool{}
	for k := 0; k < g.n(4); k++ {
		n := pkgNames[g.n(len(pkgNames))].n
		if g.p1(0.7) {
			n = g.p.Pkgs[g.n(len(g.p.Pkgs))].Name
		}
		if !seen[n] {
			seen[n] = true
			fmt.Fprintf(&b, "<Package>%s</Package>", xe(n))
		}
	}
	b.WriteString("</Obsoletes></PISI>\n")
	return b.String()
}

func (g *gen) components() string {
	var b strings.Builder
	b.WriteString(xmlHead + "<PISI><Components>")
	for _, i := range g.some([]int{0, 1, 2, 3}, 1+g.n(4)) {
		fmt.Fprintf(&b, "<Component><Name>system.%c</Name>%s%s%s<Group>g%d</Group><Maintainer><Name>Jürgen</Name><Email>j@example.org</Email></Maintainer></Component>",
			'a'+i, g.lang("LocalName", 1+g.n(3)), g.lang("Summary", 1), g.lang("Description", 1+g.n(2)), g.n(3))
	}
	b.WriteString("</Components></PISI>\n")
	return b.String()
}

func (g *gen) groups() string {
	var b strings.Builder
	b.WriteString(xmlHead + "<PISI><Groups>")
	for _, i := range g.some([]int{0, 1, 2, 3}, 1+g.n(4)) {
		fmt.Fprintf(&b, "<Group><Name>grp.%c</Name>%s<Icon>icon-%d</Icon></Group>", 'a'+i, g.lang("LocalName", 1+g.n(3)), g.n(9))
	}
	b.WriteString("</Groups></PISI>\n")
	return b.String()
}

var badAssets = []string{"", "<PISI>", "garbage", "<PISI><Components><Component><Name>x</Name></Component></Components>", xmlHead + "<PISI><Groups><Group><Name>"}

// asset writes or removes one asset file.
func (g *gen) asset(bad bool) Step {
	l := g.live()
	if len(l) == 0 {
		return Step{}
	}
	s := Step{Op: "asset", Repo: g.pick(l)}
	switch g.n(4) {
	case 0:
		s.Name, s.Body = "components.xml", g.components()
	case 1:
		s.Name, s.Body = "groups.xml", g.groups()
	default:
		s.Name, s.Body = "distribution.xml", g.distribution()
	}
	s.Flag = g.p1(0.5) // in place
	if bad {
		s.Body = g.pick(badAssets[1:])
	}
	r := g.m.repos[s.Repo]
	if _, ok := r.assets[s.Name]; ok && g.p1(0.15) {
		s.Mode, s.Body = "rm", ""
		delete(r.assets, s.Name)
		return s
	}
	r.assets[s.Name] = s.Body
	return s
}

func (g *gen) phase(steps int) Phase {
	g.used = map[int]bool{}
	var ph Phase
	for k := 0; k < 2; k++ {
		if g.p1(0.3) {
			if s := g.asset(false); s.Op != "" {
				ph.Pre = append(ph.Pre, s)
			}
		}
	}
	var c []Step
	for i := 0; i < steps; i++ {
		c = append(c, g.step())
	}
	ph.Clients = [][]Step{c}
	return ph
}

// setup makes repositories with some content.
func (g *gen) setup(repos int) {
	g.repos = nil
	for _, i := range g.some([]int{0, 1, 2, 3, 4, 5, 6}, 4) {
		g.repos = append(g.repos, repoNames[i])
	}
	if g.p1(0.1) {
		g.repos[g.n(4)] = g.pick([]string{"a b", "ünstable", "50%", "a%20b", "un?x=1", "un#1", "a+b", "a.b", "-a", "~", "a&b", ".a", "A", "a'b"})
	}
	var c []Step
	do := func(s Step) {
		g.m.apply(&s, g.p.Pkgs)
		c = append(c, s)
	}
	for i := 0; i < repos; i++ {
		do(Step{Op: "create", Repo: g.repos[i]})
		if g.p1(0.9) {
			do(Step{Op: "import", Repo: g.repos[i], Pkgs: g.some(g.goodPkgs(), 1+g.n(5))})
		}
	}
	g.p.Phases = append(g.p.Phases, Phase{Clients: [][]Step{c}})
}

func (g *gen) killFault() Fault {
	if g.p1(0.12) {
		return Fault{Kind: "killtime", Ms: 1 + g.n(20000), Down: g.down()}
	}
	f := Fault{Kind: "kill", Class: g.pick([]string{"any", "data", "data", "db", "all"}), Mode: g.pick([]string{"before", "after", "short", "after"}), Down: g.down()}
	hi := []int{6, 20, 60, 160}[g.n(4)]
	f.Nth = 1 + g.n(hi)
	if g.p1(0.1) {
		f.Class, f.Nth = "tool", 1+g.n(6)
	}
	return f
}
func (g *gen) down() int { return []int{1, 300, 3000, 40000}[g.n(4)] }

// slowUpload: the daemon is slow to look at an upload.
func (g *gen) slowUpload(ph *Phase) {
	for i := range ph.Clients {
		for j := range ph.Clients[i] {
			if ph.Clients[i][j].Op == "upload" && g.p1(0.3) {
				ph.Faults = append(ph.Faults, Fault{Kind: "stall", Class: "data", Mode: "tram", Nth: 1 + g.n(3), Ms: 1 + g.n([]int{20, 300, 3000}[g.n(3)]), Count: 1})
				return
			}
		}
	}
}

func (g *gen) ioFault(db bool) Fault {
	f := Fault{Class: "data", Count: 1}
	if g.p1(0.2) {
		f.Count = 1 + g.n(8)
	}
	f.Nth = 1 + g.n([]int{8, 30, 90, 250}[g.n(4)])
	switch g.n(8) {
	case 0, 1:
		f.Kind = "eio"
		f.Mode = g.pick([]string{"", "write", "create,open", "link,rename", "read,mmap,stat", "unlink,mkdir,readdir", "link", "rename", "close", "close"})
		if f.Mode != "" {
			f.Nth = 1 + g.n(30)
		}
	case 2, 3:
		f.Kind = "enospc"
		f.Nth = 1 + g.n(60)
	case 4:
		f.Kind = "short"
		f.Nth = 1 + g.n(15)
	case 5:
		f.Kind, f.Class, f.Ms = "stall", "any", 500+g.n(9000)
	default:
		f.Kind, f.Mode, f.Nth, f.Class = "tool", g.pick([]string{"half", "killed", "absent"}), 1+g.n(6), ""
	}
	if db {
		f.Class = "db"
		if f.Kind == "tool" || f.Kind == "stall" {
			f.Kind = "eio"
			f.Mode = ""
		}
		f.Nth = 1 + g.n(25)
	}
	return f
}

// dbRead: for a moment the database cannot be read.
func (g *gen) dbRead() {
	g.p.DBCold = true
	for k := 0; k < 1+g.n(2); k++ {
		ph := g.phase(1 + g.n(3))
		ph.Restart = g.pick([]string{"", "term", "term", "kill", "kill"}) // afterwards everything is in tables
		for i := 0; i < 1+g.n(2); i++ {
			f := Fault{Kind: "eio", Class: "db", Mode: "read", Count: 1, Nth: 1 + g.n([]int{20, 80, 300}[g.n(3)])}
			if g.p1(0.2) {
				f.Mode = "read,open"
			}
			if g.p1(0.3) {
				f.Count = 1 + g.n(6)
			}
			ph.Faults = append(ph.Faults, f)
		}
		ph.Heal = true
		g.p.Phases = append(g.p.Phases, ph)
	}
}

// generate builds the plan of a profile.
func generate(profile string, seed uint64, focus map[string]int) *Plan {
	g := newGen(profile, seed)
	if focus == nil {
		focus = defaultFocus
	}
	g.weights(focus)
	switch profile {
	case "ops":
		g.universe(2+g.n(4), 1+g.n(4))
		g.setup(1 + g.n(3))
		for k := 0; k < 2+g.n(4); k++ {
			ph := g.phase(1 + g.n(5))
			if g.p1(0.12) {
				ph.Restart = g.pick([]string{"kill", "term"})
			}
			g.p.Phases = append(g.p.Phases, ph)
		}
	case "crash":
		g.kills = true
		g.universe(2+g.n(3), 1+g.n(3))
		g.setup(1 + g.n(3))
		for k := 0; k < 1+g.n(3); k++ {
			ph := g.phase(1 + g.n(3))
			for i := 0; i < 1+g.n(2); i++ {
				ph.Faults = append(ph.Faults, g.killFault())
			}
			g.p.Phases = append(g.p.Phases, ph)
		}
		if g.p1(0.7) {
			g.p.Phases = append(g.p.Phases, g.indexAll())
		}
	case "io":
		g.kills = true
		g.universe(2+g.n(3), 1+g.n(3))
		g.setup(1 + g.n(3))
		for k := 0; k < 1+g.n(2); k++ {
			ph := g.phase(1 + g.n(3))
			for i := 0; i < 1+g.n(2); i++ {
				ph.Faults = append(ph.Faults, g.ioFault(false))
			}
			if g.p1(0.12) {
				ph.Faults = append(ph.Faults, g.killFault())
			}
			ph.Heal = true
			g.p.Phases = append(g.p.Phases, ph)
			if g.p1(0.4) {
				// the same again, undisturbed
				q := Phase{Clients: [][]Step{nil}}
				for _, s := range ph.Clients[0] {
					if s.isJob() && s.Op != "upload" && s.Op != "delete" {
						q.Clients[0] = append(q.Clients[0], s)
					}
				}
				if len(q.Clients[0]) > 0 {
					g.p.Phases = append(g.p.Phases, q)
				}
			}
		}
		if g.p1(0.35) {
			g.dbRead()
		}
		if g.p1(0.25) {
			ph := g.phase(1 + g.n(3))
			ph.Faults = append(ph.Faults, g.ioFault(true))
			g.p.Phases = append(g.p.Phases, ph)
		} else {
			g.p.Phases = append(g.p.Phases, g.indexAll())
		}
	case "mal":
		g.universe(2+g.n(3), 1+g.n(3))
		g.malPkgs()
		g.p.Lost = g.p1(0.3)
		g.setup(1 + g.n(2))
		for k := 0; k < 2+g.n(3); k++ {
			ph := g.phase(g.n(3))
			var c []Step
			for _, s := range ph.Clients[0] {
				c = append(c, s)
				if g.p1(0.8) {
					c = append(c, g.malformed())
				}
			}
			c = append(c, g.malformed())
			ph.Clients[0] = c
			if g.p1(0.25) {
				if s := g.asset(true); s.Op != "" {
					ph.Pre = append(ph.Pre, s)
				}
			}
			g.p.Phases = append(g.p.Phases, ph)
		}
	case "multi":
		g.universe(2+g.n(4), 1+g.n(3))
		g.setup(1 + g.n(3))
		for k := 0; k < 1+g.n(3); k++ {
			g.p.Phases = append(g.p.Phases, g.multiPhase(2+g.n(4), 1+g.n(4)))
			g.slowUpload(&g.p.Phases[len(g.p.Phases)-1])
		}
		if g.p1(0.3) {
			g.kills = true
			ph := g.multiPhase(2+g.n(3), 1+g.n(3))
			ph.Faults = append(ph.Faults, g.killFault())
			g.p.Phases = append(g.p.Phases, ph)
		}
	case "term":
		g.universe(2+g.n(3), 1+g.n(3))
		g.setup(1 + g.n(3))
		for k := 0; k < 1+g.n(3); k++ {
			var ph Phase
			if g.p1(0.4) {
				ph = g.multiPhase(2+g.n(3), 1+g.n(3))
			} else {
				ph = g.phase(1 + g.n(4))
			}
			f := Fault{Kind: "term", Down: g.down(), Mode: g.pick([]string{"", "int", "twice"})}
			if g.p1(0.5) {
				f.Ms = 1 + g.n(14000)
			} else {
				f.Class, f.Nth = g.pick([]string{"any", "data", "db"}), 1+g.n([]int{10, 40, 120}[g.n(3)])
			}
			ph.Faults = append(ph.Faults, f)
			if g.p1(0.15) {
				ph.Faults = append(ph.Faults, Fault{Kind: "stall", Class: "data", Nth: 1 + g.n(60), Ms: 1000 + g.n(20000), Count: 1})
			}
			g.slowUpload(&ph)
			if g.p1(0.15) {
				g.kills = true
				ph.Faults = append(ph.Faults, g.killFault())
			}
			g.p.Phases = append(g.p.Phases, ph)
		}
		g.p.TermEnd = true
	case "clock":
		g.universe(2+g.n(3), 1+g.n(3))
		g.setup(1 + g.n(2))
		for k := 0; k < 2+g.n(2); k++ {
			ph := g.phase(2 + g.n(4))
			for i := 0; i < 1+g.n(2); i++ {
				ph.Faults = append(ph.Faults, Fault{Kind: "clock", Nth: 1 + g.n(9000), Ms: (g.n(2)*2 - 1) * (1 + g.n(90000000))})
			}
			if g.p1(0.35) {
				ph.Faults = append(ph.Faults, Fault{Kind: "watch", Ms: 1 + g.n(9000)})
			}
			g.p.Phases = append(g.p.Phases, ph)
		}
	case "cdn":
		g.universe(2+g.n(3), 1+g.n(3))
		g.cdn()
		g.setup(1 + g.n(3))
		for k := 0; k < 1+g.n(4); k++ {
			var ph Phase
			if g.p1(0.25) {
				ph = g.multiPhase(2+g.n(2), 1+g.n(3))
			} else {
				ph = g.phase(1 + g.n(4))
			}
			for i := 0; i < g.n(3); i++ {
				ph.Faults = append(ph.Faults, g.cdnFault())
			}
			if g.p1(0.3) { // the list cannot be read
				ph.Faults = append(ph.Faults, Fault{Kind: "eio", Class: "cfg", Nth: 1 + g.n(5), Count: 1 + g.n(3)})
			}
			if g.p1(0.1) {
				ph.Faults = append(ph.Faults, Fault{Kind: "term", Down: g.down(), Ms: 1 + g.n(14000)})
			}
			if g.p1(0.1) {
				g.kills = true
				ph.Faults = append(ph.Faults, g.killFault())
			}
			if g.p1(0.1) {
				ph.Restart = g.pick([]string{"kill", "term"})
			}
			g.p.Phases = append(g.p.Phases, ph)
		}
		if g.p1(0.5) {
			g.p.Phases = append(g.p.Phases, g.indexAll())
		}
	case "ring":
		g.universe(2, 2)
		g.ring()
	}
	g.p.untangle()
	return g.p
}

func (g *gen) indexAll() Phase {
	var c []Step
	for _, x := range g.live() {
		c = append(c, Step{Op: "index", Repo: x})
	}
	if len(c) == 0 {
		c = append(c, Step{Op: "status"})
	}
	return Phase{Clients: [][]Step{c}}
}

// multiPhase: several clients at once; import counts are distinct so that records can be told apart.
func (g *gen) multiPhase(clients, steps int) Phase {
	g.used = map[int]bool{}
	var ph Phase
	counts := map[string]int{}
	for c := 0; c < clients; c++ {
		var l []Step
		for i := 0; i < steps; i++ {
			s := g.step()
			if s.Op == "import" {
				k := len(s.Pkgs) + s.Pad
				for counts[fmt.Sprintf("%s|%d", s.Repo, k)] > 0 {
					k++
				}
				s.Pad = k - len(s.Pkgs)
				counts[fmt.Sprintf("%s|%d", s.Repo, k)]++
			}
			if s.Op == "delta" {
				s = Step{Op: "list"}
			}
			l = append(l, s)
			if g.p1(0.2) {
				l = append(l, Step{Op: "sleep", Ms: g.n(3000)})
			}
		}
		ph.Clients = append(ph.Clients, l)
	}
	return ph
}

func (g *gen) malPkgs() {
	bads := []string{"empty", "notzip", "trunczip", "nometa", "truncmeta", "notxml", "emptymeta", "noname", "emptyname", "slashname", "pipename", "pipename", "nosummary", "nodesc", "nohistory", "emptyhistory", "nosource", "nofiles", "badfiles", "noinstall"}
	for k := 0; k < 4+g.n(4); k++ {
		b := &g.p.Pkgs[g.n(len(g.p.Pkgs))]
		q := *b
		q.Bad, q.File = g.pick(bads), ""
		q.Name = fmt.Sprintf("bad%d", k)
		q.Ver = fmt.Sprintf("9.%d", k)
		q.Text = 1 + g.n(1000)
		g.p.Pkgs = append(g.p.Pkgs, q)
	}
	g.reindex()
}

func (g *gen) badPkgs() []int {
	var o []int
	for i := range g.p.Pkgs {
		if g.p.Pkgs[i].Bad != "" {
			o = append(o, i)
		}
	}
	return o
}

var uploadModes = []string{"badversion", "notarget", "badtoml", "noheader", "badsha", "uppersha", "emptysha", "shortsha", "longsha", "othersha", "othersha", "othercontent", "othercopy", "emptypath", "noteopkg", "corrupt", "truncated", "absent", "traverse", "outlink", "outdir", "shrink", "fifo", "canary", "nopayload", "emptytram"}

var rawReqs = []Step{
	{Op: "raw", Name: "/api/v1/import/unstable", Body: "{"},
	{Op: "raw", Name: "/api/v1/import/unstable", Body: "[1,2,3]"},
	{Op: "raw", Name: "/api/v1/clone/unstable", Body: "\"text\""},
	{Op: "raw", Name: "/api/v1/pull/unstable", Body: "nonsense"},
	{Op: "raw", Name: "/api/v1/copy/source/unstable", Body: "{\"relno\": \"x\"}"},
	{Op: "raw", Name: "/api/v1/remove/source/unstable", Body: ""},
	{Op: "raw", Name: "/api/v1/trim/packages/unstable", Body: "{\"maxPackages\": 1e99}"},
	{Op: "raw", Name: "/api/v1/nothing/here", Body: "", Mode: "get"},
	{Op: "raw", Name: "/", Body: "", Mode: "get"},
	{Op: "raw", Name: "/api/v1/create/repo/", Body: "", Mode: "get"},
	{Op: "raw", Name: "/api/v1/import/unstable", Body: "{\"path\": [\"/srv/build/a.eopkg\", \"", Mode: "cut"},
	{Op: "raw", Name: "/api/v1/clone/unstable", Body: "{\"cloneName\": \"zz\", \"copyAll\": tru", Mode: "cut"},
}

// rawPart is a request whose body is right in parts only.
func (g *gen) rawPart() Step {
	src := "nano"
	if good := g.goodPkgs(); len(good) > 0 {
		src = g.p.Pkgs[good[g.n(len(good))]].Src
	}
	rel := fmt.Sprint(1 + g.n(4))
	bad := g.pick([]string{`"` + rel + `"`, rel + ".5", "[" + rel + "]", "1e40", "true", `{"n":` + rel + `}`, rel + ` "x"`})
	a, b := g.anyRepo(), g.anyRepo()
	var path, body string
	switch g.n(7) {
	case 0, 1:
		path, body = "remove/source/"+a, fmt.Sprintf(`{"source": %q, "relno": %s}`, src, bad)
	case 2:
		path, body = "copy/source/"+a, fmt.Sprintf(`{"source": %q, "target": %q, "relno": %s}`, src, b, bad)
	case 3:
		path, body = "trim/packages/"+a, fmt.Sprintf(`{"maxPackages": %s}`, bad)
	case 4:
		path, body = "clone/"+a, fmt.Sprintf(`{"cloneName": "zz%d", "copyAll": %s}`, g.n(3), g.pick([]string{`"yes"`, "1", "[]"}))
	case 5:
		path, body = "pull/"+a, fmt.Sprintf(`{"error": [%q], "source": %q}`, b, b)
	default:
		path, body = "import/"+a, fmt.Sprintf(`{"path": [%q, 3]}`, srcDir+"/x.eopkg")
		if i := g.some(g.goodPkgs(), 1); len(i) > 0 {
			path, body = "import/"+a, fmt.Sprintf(`{"path": [%q, 3]}`, srcDir+"/"+g.p.Pkgs[i[0]].ID())
		}
	}
	return Step{Op: "raw", Name: "/api/v1/" + path, Body: body}
}

var oddNames = []string{"..", ".", "../../etc/evil", "../outside", "a b", "ünïcode", "x'y", "semi;colon", "-", "|bucket|x", "|rootBucket|-", "q%2Fz", "q%2F..%2F..%2Fz", "very" + strings.Repeat("-long", 60)}

// malformed invents one invalid request; the model must agree that it changes nothing.
func (g *gen) malformed() Step {
	switch g.n(7) {
	case 0:
		if g.p1(0.6) {
			return g.rawPart()
		}
		return rawReqs[g.n(len(rawReqs))]
	case 1, 2:
		s := Step{Op: "import", Repo: g.anyRepo(), Pkgs: g.some(g.goodPkgs(), g.n(3))}
		bad := g.badPkgs()
		s.Pkgs = append(s.Pkgs, bad[g.n(len(bad))])
		if g.p1(0.5) {
			s.Pkgs[0], s.Pkgs[len(s.Pkgs)-1] = s.Pkgs[len(s.Pkgs)-1], s.Pkgs[0]
		}
		return s
	case 3:
		s := Step{Op: "import", Repo: g.anyRepo(), Pkgs: g.some(g.goodPkgs(), 1+g.n(2)), Mode: g.pick([]string{"missing", "missingfirst", "isdir", "fifo"}), Pad: 1}
		if g.p1(0.2) {
			s = Step{Op: "import", Repo: g.anyRepo()}
		}
		return s
	case 4, 5:
		s := g.step1("upload")
		if s.Op == "" {
			return Step{Op: "status"}
		}
		if g.p1(0.75) {
			s.Mode = g.pick(uploadModes)
			if g.p1(0.6) && len(s.Pkgs) == 1 {
				for _, i := range g.some(g.goodPkgs(), 1+g.n(3)) {
					if i != s.Pkgs[0] && !g.used[i] {
						g.use(i)
						s.Pkgs = append(s.Pkgs, i)
					}
				}
			}
			if g.p1(0.4) {
				s.Rel2 = 1 + g.n(len(s.Pkgs))
			}
		} else {
			bad := g.badPkgs()
			s.Pkgs = append(s.Pkgs, bad[g.n(len(bad))])
		}
		return g.upOnce(s)
	}
	return g.oddName()
}

func (g *gen) oddName() Step {
	n := g.pick(oddNames)
	if g.p.Lost && g.p1(0.3) {
		n = lostDir
	}
	switch g.n(5) {
	case 4:
		if strings.Contains(n, "/") || n == "." || n == ".." { // no such address
			return Step{Op: "create", Repo: "|bucket|"}
		}
		return Step{Op: "create", Repo: n}
	case 0:
		return Step{Op: "clone", Repo: g.anyRepo(), Repo2: n, Flag: g.p1(0.5)}
	case 1:
		return Step{Op: "pull", Repo: g.anyRepo(), Repo2: n}
	case 2:
		return Step{Op: "copy", Repo: g.anyRepo(), Repo2: n, Src: "nano", Rel: -1}
	}
	g.nUp++
	s := Step{Op: "upload", Repo: n, Name: fmt.Sprintf("up%d.tram", g.nUp), Pkgs: g.some(g.goodPkgs(), 1)}
	if g.used[s.Pkgs[0]] {
		return Step{Op: "status"}
	}
	g.use(s.Pkgs[0])
	return g.upOnce(s)
}

// upOnce: a later upload must not replace the files of a broken one before it was processed.
func (g *gen) upOnce(s Step) Step {
	if g.upPhase != len(g.p.Phases) {
		g.upPhase, g.upUsed = len(g.p.Phases), map[int]bool{}
	}
	for _, i := range s.Pkgs {
		if g.upUsed[i] {
			return Step{Op: "status"}
		}
	}
	for _, i := range s.Pkgs {
		g.upUsed[i] = true
	}
	return s
}

// ring fills the histories over their limit, with resets in between.
func (g *gen) ring() {
	g.repos = []string{"unstable"}
	g.p.Phases = append(g.p.Phases, Phase{Clients: [][]Step{{{Op: "create", Repo: "unstable"}}}})
	g.m.apply(&Step{Op: "create", Repo: "unstable"}, nil)
	for k := 0; k < 3+g.n(3); k++ {
		var c []Step
		n := 20 + g.n(65)
		pf := g.r.Float()
		for i := 0; i < n; i++ {
			if g.p1(pf) {
				c = append(c, Step{Op: "create", Repo: "unstable"})
			} else {
				c = append(c, Step{Op: "trim", Repo: "unstable", Rel: 1})
			}
		}
		if g.p1(0.3) {
			c = append(c, Step{Op: "status"})
		}
		ph := Phase{Clients: [][]Step{c}}
		if g.p1(0.3) {
			ph.Restart = g.pick([]string{"kill", "term"})
		}
		if g.p1(0.2) {
			ph.Faults = []Fault{{Kind: "kill", Class: "db", Nth: 1 + g.n(400), Mode: g.pick([]string{"before", "after", "short"}), Down: 1}}
		}
		g.p.Phases = append(g.p.Phases, ph)
		if g.p1(0.5) {
			var c []Step
			if g.p1(0.6) {
				c = append(c, Step{Op: "resetc"})
			}
			if g.p1(0.6) {
				c = append(c, Step{Op: "resetf"})
			}
			if len(c) > 0 {
				g.p.Phases = append(g.p.Phases, Phase{Clients: [][]Step{c}})
			}
		}
	}
}
