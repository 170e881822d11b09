package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/getsolus/ferryd/src/libferry"

	"verif.local/sim/rt"
)

// cand is one state the system may be in according to the model.
type cand struct {
	m     *Model
	leak  map[string]int  // reference counts left too high by disturbed jobs
	stray map[string]bool // "repo|id" or "|id" (pool): files without an entry
	miss  map[string]bool // "repo|id": entries whose file a disturbed removal already took
	kf    []string
	async [2]int // background jobs spawned in this phase (min, max)
}

func (c *cand) fork(m *Model) *cand {
	n := *c
	n.m = m
	return &n
}
func (c *cand) withKF(k string) *cand {
	n := *c
	for _, x := range c.kf {
		if x == k {
			return &n
		}
	}
	n.kf = append(append([]string{}, c.kf...), k)
	return &n
}
func (c *cand) keep() map[string]bool {
	o := map[string]bool{}
	for id := range c.leak {
		o[id] = true
	}
	return o
}

const maxCands = 3000

// snapshot is what can be seen of the idle system.
type snapshot struct {
	repos    []string
	pool     map[string]int
	poolF    map[string]string // file name -> sha1, path checked separately
	poolPath map[string]string
	tree     map[string]map[string]string // repo -> package path -> sha1
	other    map[string][]string          // repo -> other files
	assets   map[string]map[string]string
	incoming map[string]string
	src      map[string]string
	idx      map[string]map[string][]byte
	extra    []string
}

type mismatch struct {
	tags []string
	kind string
	msg  string
}

func (r *Run) takeSnapshot(lf *libferry.Client) (*snapshot, error) {
	s := &snapshot{pool: map[string]int{}, poolF: map[string]string{}, poolPath: map[string]string{}, tree: map[string]map[string]string{}, other: map[string][]string{}, assets: map[string]map[string]string{}, incoming: map[string]string{}, src: map[string]string{}, idx: map[string]map[string][]byte{}}
	repos, err := lf.GetRepos()
	if err != nil {
		return nil, fmt.Errorf("repository list: %v", err)
	}
	s.repos = append(s.repos, repos...)
	sort.Strings(s.repos)
	items, err := lf.GetPoolItems()
	if err != nil {
		return nil, fmt.Errorf("pool list: %v", err)
	}
	for _, it := range items {
		if _, dup := s.pool[it.ID]; dup {
			s.extra = append(s.extra, "pool item listed twice: "+it.ID)
		}
		s.pool[it.ID] = it.RefCount
	}
	walk := func(dir string, f func(rel string, n *rt.Inode)) {
		r.w.FS.WalkTree(dir, func(p string, n *rt.Inode) {
			if n.Mode.IsRegular() {
				f(strings.TrimPrefix(p, dir+"/"), n)
			}
		})
	}
	walk(base+"/pool", func(rel string, n *rt.Inode) {
		id := rel[strings.LastIndexByte(rel, '/')+1:]
		if s.poolPath[id] != "" {
			s.extra = append(s.extra, "two pool files for "+id)
		}
		s.poolF[id] = r.shaOf(n)
		s.poolPath[id] = rel
	})
	for repo, d := range r.repoDirs() {
		if !d.IsDir() {
			s.extra = append(s.extra, "file in the repository directory: "+repo)
			continue
		}
		s.tree[repo] = map[string]string{}
		s.idx[repo] = map[string][]byte{}
		walk(base+"/repo/"+repo, func(rel string, n *rt.Inode) {
			switch {
			case indexFileSet[rel]:
				s.idx[repo][rel] = n.Data
			case strings.HasSuffix(rel, ".eopkg"):
				s.tree[repo][rel] = r.shaOf(n)
			default:
				s.other[repo] = append(s.other[repo], rel)
			}
		})
		sort.Strings(s.other[repo])
	}
	if d := r.w.FS.Lookup(base + "/assets"); d != nil {
		for repo, k := range d.Kids {
			s.assets[repo] = map[string]string{}
			for n, f := range k.Kids {
				if f.Mode.IsRegular() {
					s.assets[repo][n] = string(f.Data)
				}
			}
		}
	}
	walk(base+"/incoming", func(rel string, n *rt.Inode) { s.incoming[base+"/incoming/"+rel] = r.shaOf(n) })
	walk(srcDir, func(rel string, n *rt.Inode) { s.src[srcDir+"/"+rel] = r.shaOf(n) })
	return s, nil
}

// pkgOf is the content the model expects for an ID.
func (r *Run) pkgOf(m *Model, id string) *Pkg {
	if v, ok := m.pool[id]; ok && v < len(r.p.Pkgs) {
		return &r.p.Pkgs[v]
	}
	return r.u[id]
}

func (r *Run) targetTags(repo string) []string {
	var t []string
	for _, o := range r.phOps {
		for _, x := range o.s.targets() {
			if x == repo {
				t = append(t, opTag(o.s.Op))
			}
		}
	}
	if t == nil {
		t = append(t, "C11")
		for _, o := range r.phOps {
			if (o.s.Op == "clone" || o.s.Op == "copy") && o.s.Repo == repo || o.s.Op == "pull" && o.s.Repo2 == repo {
				t = append(t, "C09")
			}
		}
	}
	return t
}

func (r *Run) failedTarget(repo string) bool {
	for _, o := range r.phOps {
		if o.rec != nil && o.rec.Failed {
			for _, x := range o.s.targets() {
				if x == repo {
					return true
				}
			}
		}
	}
	return false
}

// touch remembers what disturbed jobs may have left half done.
type touches struct {
	repo map[string]bool // "repo|id"
	rm   map[string]bool // "repo|id", by a removal
	pool map[string]bool
	gone map[string]bool // repositories whose directories may remain
	tmp  map[string]bool // repositories with leftovers of an index attempt
}

func newTouches() *touches {
	return &touches{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}}
}

// compare lists what in the snapshot contradicts the candidate; leaks and strays that are
// allowed are returned in the successor.
func (r *Run) compare(c *cand, s *snapshot, t *touches) (*cand, []mismatch) {
	var mm []mismatch
	add := func(tags []string, kind, f string, a ...any) {
		mm = append(mm, mismatch{tags, kind, fmt.Sprintf(f, a...)})
	}
	m := c.m
	n := c.fork(m)
	n.leak, n.stray, n.miss = map[string]int{}, map[string]bool{}, map[string]bool{}

	// repositories
	want := sortedKeys(m.repos)
	if strings.Join(want, "\n") != strings.Join(s.repos, "\n") {
		var tags []string
		for _, x := range symdiff(want, s.repos) {
			tags = append(tags, r.targetTags(x)...)
		}
		if len(tags) == 0 {
			tags = []string{"C09", "C10"}
		}
		add(tags, "repos", "repositories are %v instead of %v", s.repos, want)
	}
	for _, repo := range want {
		mr := m.repos[repo]
		tt := r.targetTags(repo)
		have := s.tree[repo]
		wantF := map[string]string{}
		for id := range mr.ids() {
			wantF[r.u[id].URI()] = id
		}
		for _, p := range sortedKeys(wantF) {
			id := wantF[p]
			k := repo + "|" + id
			sha, ok := have[p]
			if !ok {
				if c.miss[k] || t.rm[k] {
					n.miss[k] = true
					continue
				}
				add(append(tt, "C05"), "missing", "repository %s lacks the file of %s", repo, id)
			} else if sha != sha1hex(r.pkgOf(m, id).Bytes()) {
				add(append(tt, "C06"), "content", "the content of %s in repository %s is not that of the package", id, repo)
			}
		}
		for _, p := range sortedKeys(have) {
			if wantF[p] != "" {
				continue
			}
			id := p[strings.LastIndexByte(p, '/')+1:]
			k := repo + "|" + id
			if c.stray[k] || t.repo[k] {
				n.stray[k] = true
				if q := r.u[id]; q != nil && have[p] != "" {
					continue
				}
			}
			add(append(tt, "C05"), "unexpected", "repository %s has an unexpected file %s", repo, p)
		}
		for _, o := range s.other[repo] {
			if strings.Contains(o, ".new") && (t.tmp[repo] || r.tmpLeft[repo]) {
				continue
			}
			add(append(tt, "C08"), "leftover", "repository %s has an unexpected file %s", repo, o)
		}
		// assets
		for k := range s.assets[repo] {
			if strings.HasSuffix(k, ".new") && (t.tmp[repo] || r.tmpLeft[repo]) {
				delete(s.assets[repo], k)
			}
		}
		if !sameMap(mr.assets, s.assets[repo]) {
			add(tt, "assets", "the assets of %s are %v instead of %v", repo, clipMap(s.assets[repo]), clipMap(mr.assets))
		}
		// index
		for _, e := range r.checkIndex(repo, mr, s.idx[repo]) {
			tags := append(append([]string{}, tt...), e.tags...)
			if r.failedTarget(repo) {
				tags = append(tags, "C08")
			}
			add(tags, e.kind, "%s", e.msg)
		}
	}
	for _, repo := range sortedKeys(s.tree) {
		if m.repos[repo] == nil && !t.gone[repo] && !r.ghosts[repo] {
			add(r.targetTags(repo), "ghost", "a directory of the repository %s, which should not exist, is there", repo)
		}
	}
	for _, repo := range sortedKeys(s.assets) {
		if m.repos[repo] == nil && !t.gone[repo] && !r.ghosts[repo] {
			add(r.targetTags(repo), "ghost", "an asset directory of the repository %s, which should not exist, is there", repo)
		}
	}
	// pool
	refs := m.refs()
	ids := map[string]bool{}
	for id := range refs {
		ids[id] = true
	}
	for id := range s.pool {
		ids[id] = true
	}
	for id := range s.poolF {
		ids[id] = true
	}
	for id := range c.leak {
		ids[id] = true
	}
	for _, id := range sortedKeys(ids) {
		exp := refs[id] + c.leak[id]
		got, ok := s.pool[id]
		tags := []string{"C05"}
		if !r.idTargeted(id, m) {
			tags = append(tags, "C11")
		}
		if ok && got > exp && t.pool[id] {
			n.leak[id] = got - refs[id]
		} else if got != exp || ok != (exp > 0) {
			if got < exp {
				tags = append(tags, "C06", "?C13")
			}
			add(tags, "refcount", "pool item %s has reference count %d (listed: %v) instead of %d", id, got, ok, exp)
		} else if c.leak[id] > 0 {
			n.leak[id] = c.leak[id]
		}
		sha, f := s.poolF[id]
		switch {
		case ok && !f:
			add(append(tags, "?C13", "C06"), "poolfile", "pool item %s has no file", id)
		case !ok && f:
			if c.stray["|"+id] || t.pool[strings.TrimSuffix(id, ".new")] {
				n.stray["|"+id] = true
			} else {
				add(tags, "poolstray", "pool file %s has no pool item", s.poolPath[id])
			}
		case f:
			p := r.pkgOf(m, id)
			if p == nil {
				add([]string{"C05", "C12", "C16"}, "poolunknown", "unknown pool item %s", id)
			} else if s.poolPath[id] != p.URI() {
				add(tags, "poolpath", "pool file of %s is at %s", id, s.poolPath[id])
			} else if sha != sha1hex(p.Bytes()) {
				add([]string{"C06", "C05"}, "poolcontent", "the pool file of %s is not the package that was accepted", id)
			}
		}
	}
	for _, e := range s.extra {
		add([]string{"C05"}, "extra", "%s", e)
	}
	return n, mm
}

func (r *Run) idTargeted(id string, m *Model) bool {
	for _, o := range r.phOps {
		for _, t := range o.s.targets() {
			mr := m.repos[t]
			if mr == nil || mr.ids()[id] {
				return true
			}
			for _, c := range r.prev {
				if x := c.m.repos[t]; x != nil && x.ids()[id] {
					return true
				}
			}
		}
	}
	return false
}

func clipMap(m map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = fmt.Sprintf("%d bytes %s", len(v), sha1hex([]byte(v))[:6])
	}
	return o
}

func symdiff(a, b []string) []string {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	var o []string
	for _, k := range sortedKeys(m) {
		if m[k] != 0 {
			o = append(o, k)
		}
	}
	return o
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// --- index against model ---

func pick(n *node, names ...string) *node {
	o := &node{name: n.name, attrs: n.attrs, text: ""}
	for _, k := range n.kids {
		for _, x := range names {
			if k.name == x {
				o.kids = append(o.kids, k)
			}
		}
	}
	return o
}

func fixFirst(n *node, names ...string) {
	for _, name := range names {
		for i, k := range n.kids {
			if k.name == name {
				if len(k.attrs) == 0 {
					n.kids[i] = &node{name: k.name, attrs: []string{"lang=en"}, text: k.text, kids: k.kids}
				}
				break
			}
		}
	}
}

var restCache = map[string]string{}

// wantRest is the canonical form of everything in the index that comes from the assets.
func wantRest(assets map[string]string) string {
	key := assets["distribution.xml"] + "\x00" + assets["components.xml"] + "\x00" + assets["groups.xml"]
	if s, ok := restCache[key]; ok {
		return s
	}
	var b strings.Builder
	if n, err := parseXML([]byte(assets["distribution.xml"])); err == nil {
		d := pick(n, "SourceName", "Description", "Version", "Type", "BinaryName", "Obsoletes")
		d.name = "Distribution"
		b.WriteString(d.canon(true))
	}
	if n, err := parseXML([]byte(assets["components.xml"])); err == nil {
		if k := n.kid("Components"); k != nil {
			l := k.all("Component")
			sort.SliceStable(l, func(i, j int) bool { return l[i].val("Name") < l[j].val("Name") })
			for _, c := range l {
				d := pick(c, "Name", "LocalName", "Summary", "Description", "Group", "Maintainer")
				fixFirst(d, "LocalName", "Summary", "Description")
				b.WriteString(d.canon(true))
			}
		}
	}
	if n, err := parseXML([]byte(assets["groups.xml"])); err == nil {
		if k := n.kid("Groups"); k != nil {
			l := k.all("Group")
			sort.SliceStable(l, func(i, j int) bool { return l[i].val("Name") < l[j].val("Name") })
			for _, c := range l {
				d := pick(c, "Name", "LocalName", "Icon")
				fixFirst(d, "LocalName")
				b.WriteString(d.canon(true))
			}
		}
	}
	if len(restCache) > 500 {
		restCache = map[string]string{}
	}
	restCache[key] = b.String()
	return b.String()
}

// matchGen compares a parsed index with a generation of the model; "" when it is that one.
func (r *Run) matchGen(v *idxView, x *midx) string {
	if v.err != "" {
		return "not a complete index: " + v.err
	}
	var have, want []string
	for _, p := range v.pkgs {
		have = append(have, p.id)
	}
	for _, p := range x.pubs {
		want = append(want, p.id)
	}
	h := append([]string{}, have...)
	sort.Strings(h)
	if strings.Join(h, "\n") != strings.Join(want, "\n") {
		return fmt.Sprintf("lists %v instead of %v", h, want)
	}
	byID := sort.StringsAreSorted(have)
	byName := sort.SliceIsSorted(v.pkgs, func(i, j int) bool { return v.pkgs[i].name < v.pkgs[j].name })
	if !byID && !byName {
		return fmt.Sprintf("is not sorted: %v", have)
	}
	for _, pr := range x.pubs {
		p := &r.p.Pkgs[pr.v]
		e := v.want[p.URI()]
		if e == nil {
			return fmt.Sprintf("gives no entry with the path %s", p.URI())
		}
		b := p.Bytes()
		if e.size != int64(len(b)) || e.hash != sha1hex(b) {
			return fmt.Sprintf("gives %s with size %d and hash %s instead of %d and %s", e.id, e.size, e.hash, len(b), sha1hex(b))
		}
		if e.meta != p.WantMeta() {
			return fmt.Sprintf("alters the metadata of %s: %s", e.id, firstDiff(e.meta, p.WantMeta()))
		}
		if len(e.deltas) != 0 {
			return fmt.Sprintf("lists deltas for %s", e.id)
		}
	}
	if w := wantRest(x.assets); v.rest != w {
		return "alters distribution, components or groups: " + firstDiff(v.rest, w)
	}
	return ""
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-30)
	cut := func(s string) string {
		hi := min(len(s), i+50)
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q instead of %q", cut(a), cut(b))
}

func (r *Run) checkIndex(repo string, mr *mrepo, f map[string][]byte) (out []mismatch) {
	bad := func(kind, s string, a ...any) {
		out = append(out, mismatch{[]string{"C07"}, kind, "index of " + repo + ": " + fmt.Sprintf(s, a...)})
	}
	if mr.alt == nil {
		if mr.idx == nil {
			for _, n := range sortedKeys(f) {
				bad("index", "%s exists although it was never indexed", n)
			}
			return
		}
		for _, sfx := range indexFiles {
			if _, ok := f[indexName+sfx]; !ok {
				bad("indexfile", "%s is missing", indexName+sfx)
			}
		}
		if out != nil {
			return
		}
		plain := f[indexName]
		v := parseIndex(plain)
		if why := r.matchGen(v, mr.idx); why != "" {
			bad("index", "it %s", why)
			return
		}
		if old, ok := r.idxBytes[mr.idx.key]; ok && old != v.sha {
			bad("indexbytes", "the same content gave different bytes")
		}
		for _, z := range []string{".xz", ".zst"} {
			d, err := unpackAny(indexName+z, f[indexName+z])
			if err != nil || string(d) != string(plain) {
				bad("indexz", "%s does not decompress to the index (%v)", indexName+z, err)
			}
		}
		for _, z := range []string{"", ".xz", ".zst"} {
			if string(sumOf(f[indexName+z+".sha1sum"])) != sha1hex(f[indexName+z]) {
				bad("indexsum", "%s does not match", indexName+z+".sha1sum")
			}
			if string(sumOf(f[indexName+z+".sha256sum"])) != sha256hex(f[indexName+z]) {
				bad("indexsum", "%s does not match", indexName+z+".sha256sum")
			}
		}
		return
	}
	gens := append([]*midx{mr.idx}, mr.alt...)
	for _, sfx := range indexFiles {
		b, ok := f[indexName+sfx]
		fine := false
		why := ""
		for _, g := range gens {
			if g == nil {
				fine = fine || !ok
				continue
			}
			if !ok {
				continue
			}
			if strings.HasSuffix(sfx, "sum") {
				fine = true
				continue
			}
			d := b
			if sfx != "" {
				var err error
				if d, err = unpackAny(indexName+sfx, b); err != nil {
					why = err.Error()
					continue
				}
			}
			if e := r.matchGen(parseIndex(d), g); e == "" {
				fine = true
			} else {
				why = e
			}
		}
		if !fine {
			bad("index", "%s (present: %v) is of no possible generation: %s", indexName+sfx, ok, why)
			return
		}
	}
	return
}

// --- what a finished job does to the candidates ---

func hasSoft(s *Step, pkgs []Pkg) bool {
	for _, i := range s.Pkgs {
		switch pkgs[i].Bad {
		case "nosummary", "nodesc", "nofiles", "badfiles", "noinstall":
			return true
		}
	}
	return false
}

// strict makes soft defects count as bad.
func softGood(pkgs []Pkg, good bool) []Pkg {
	out := append([]Pkg{}, pkgs...)
	for i := range out {
		switch out[i].Bad {
		case "nosummary", "nodesc", "nofiles", "badfiles", "noinstall":
			if good {
				out[i].Bad = ""
			} else {
				out[i].Bad = "hard"
			}
		}
	}
	return out
}

// partials are the states between before and after in the job's repository.
func (r *Run) partials(before, after *Model, s *Step) []*Model {
	var out []*Model
	for _, t := range s.targets() {
		b, a := before.repos[t], after.repos[t]
		if b == nil && a == nil || a == nil {
			continue
		}
		bi, ai := map[string]bool{}, a.ids()
		ba := map[string]string{}
		if b != nil {
			bi, ba = b.ids(), b.assets
		}
		var d []string
		for id := range ai {
			if !bi[id] {
				d = append(d, id)
			}
		}
		for id := range bi {
			if !ai[id] {
				d = append(d, id)
			}
		}
		sort.Strings(d)
		var fa []string
		for k, v := range a.assets {
			if w, ok := ba[k]; !ok || w != v {
				fa = append(fa, k)
			}
		}
		sort.Strings(fa)
		var sets [][]bool
		if len(d) <= 7 {
			for x := 0; x < 1<<len(d); x++ {
				m := make([]bool, len(d))
				for i := range d {
					m[i] = x>>i&1 == 1
				}
				sets = append(sets, m)
			}
		} else {
			r.capped = true
			for k := 0; k <= len(d); k++ {
				m, q := make([]bool, len(d)), make([]bool, len(d))
				for i := range d {
					m[i] = i < k
					q[i] = i >= k
				}
				sets = append(sets, m, q)
			}
		}
		for _, m := range sets {
			for y := 0; y < 1<<len(fa); y++ {
				n := before.clone()
				if b == nil {
					n.repos[t] = newMrepo()
				}
				nr := n.repos[t]
				for i, id := range d {
					if !m[i] {
						continue
					}
					if ai[id] {
						n.put(nr, id, after.pool[id])
					} else {
						n.drop(nr, id)
					}
				}
				for i, k := range fa {
					if y>>i&1 == 1 {
						nr.assets[k] = a.assets[k]
					}
				}
				out = append(out, n)
			}
		}
	}
	return out
}

// withAlt says that index files may also be of the generation of q.
func withAlt(m *Model, s *Step, q *Model) *Model {
	for _, t := range s.targets() {
		r := m.repos[t]
		x := q.repos[t]
		if r == nil || x == nil || x.idx == r.idx {
			continue
		}
		r.alt = append(append([]*midx{}, r.alt...), x.idx)
	}
	return m
}

// razed are the states after a deletion which took files but failed at its write to the database.
func razed(m *Model, s *Step) []*Model {
	id := s.targets()[0]
	r := m.repos[id]
	if r == nil {
		return nil
	}
	names := sortedKeys(r.assets)
	var out []*Model
	for x := 0; x < 1<<min(len(names), 4); x++ {
		n := m.clone()
		q := n.repos[id]
		q.alt = append(append([]*midx{}, q.alt...), q.idx, nil)
		for i, k := range names {
			if i >= 4 || x>>i&1 == 0 {
				delete(q.assets, k)
			}
		}
		out = append(out, n)
	}
	return out
}

// outcomes of one finished job.
func (r *Run) outcomes(c *cand, o *opRec, j *jobRec, interrupted, faulty bool, t *touches) []*cand {
	s := o.s
	var out []*cand
	cdnF, _ := r.cdnFailed(j)
	emit := func(x *cand) { x.m.purge(x.keep()); out = append(out, x) }
	variants := [][]Pkg{r.p.Pkgs}
	if hasSoft(s, r.p.Pkgs) {
		variants = [][]Pkg{softGood(r.p.Pkgs, false), softGood(r.p.Pkgs, true)}
	}
	for _, pk := range variants {
		after := c.m.clone()
		err := after.apply(s, pk)
		if interrupted || faulty || err != nil || j.Failed {
			r.touchDiff(c.m, after, s, t, interrupted || faulty)
		}
		if !interrupted && !faulty {
			if err == nil && j.Failed && (s.Op == "create" || s.Op == "clone") && strings.Contains(j.Err, "artifacts on disk") {
				// A deletion that met a fault may have left the directory.
				x := s.targets()[0]
				if t.gone[x] || r.ghosts[x] {
					emit(c.fork(c.m.clone()))
				}
				continue
			}
			if cdnF != nil && err == nil && j.Failed {
				emit(c.fork(after))
				continue
			}
			if (err != nil) != j.Failed {
				continue
			}
			if err == nil {
				emit(c.fork(after))
				continue
			}
			emit(c.fork(c.m.clone()))
			if after.key() != c.m.key() {
				emit(c.fork(after))
			}
			continue
		}
		starts := []*Model{c.m, after}
		starts = append(starts, r.partials(c.m, after, s)...)
		if !j.Failed {
			if faulty && !interrupted {
				starts = starts[:1]
			}
			for _, st := range starts {
				n := st.clone()
				if n.apply(s, pk) == nil {
					emit(c.fork(n))
				}
			}
			continue
		}
		for _, st := range starts {
			n := st.clone()
			e := n.apply(s, pk)
			if cdnF != nil && e == nil && !faulty {
				emit(c.fork(n))
				continue
			}
			if faulty && s.Op == "delete" {
				for _, x := range razed(st, s) {
					emit(c.fork(x))
				}
			}
			if faulty || e != nil {
				x := withAlt(st.clone(), s, after)
				k := c.fork(x)
				if err == nil && !faulty {
					k = k.withKF("rerun-" + s.Op)
				}
				emit(k)
				if e != nil && n.key() != st.key() {
					k = k.fork(withAlt(n, s, after))
					emit(k)
				}
			}
		}
	}
	return out
}

// touchDiff notes which packages a disturbed or failed job may have left references to.
func (r *Run) touchDiff(before, after *Model, s *Step, t *touches, disturbed bool) {
	if disturbed {
		for _, x := range s.targets() {
			t.tmp[x] = true
		}
	}
	for _, x := range s.targets() {
		b, a := before.repos[x], after.repos[x]
		var bi, ai map[string]bool
		if b != nil {
			bi = b.ids()
		}
		if a != nil {
			ai = a.ids()
		}
		for id := range ai {
			if !bi[id] {
				t.repo[x+"|"+id], t.pool[id] = true, true
			}
		}
		for id := range bi {
			if !ai[id] {
				t.repo[x+"|"+id], t.pool[id] = true, true
				// Only a deletion takes files while the packages are still listed.
				if s.Op == "delete" {
					t.rm[x+"|"+id] = true
				}
			}
		}
		if a == nil && disturbed {
			t.gone[x] = true
		}
	}
	if disturbed && (s.Op == "import" || s.Op == "upload") {
		for _, i := range s.Pkgs {
			id := r.p.Pkgs[i].ID()
			t.repo[s.Repo+"|"+id] = true
			t.pool[id] = true
		}
	}
}

func dedup(cs []*cand) []*cand {
	seen := map[string]bool{}
	var out []*cand
	for _, c := range cs {
		k := c.m.key() + fmt.Sprint(c.kf, c.async) + fmt.Sprint(c.leak, sortedKeys(c.stray), sortedKeys(c.miss))
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	return out
}
