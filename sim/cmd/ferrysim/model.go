package main

import (
	"fmt"
	"sort"
	"strings"
)

// The reference model: what the repositories must be after a serial history of jobs.

type ment struct {
	avail map[string]bool
	pub   string
}

// midx is one generation of a repository's index (immutable once built).
type midx struct {
	pubs   []pref // sorted by ID
	assets map[string]string
	key    string
}
type pref struct {
	id string
	v  int // index of the content in the plan's packages
}
type mrepo struct {
	names  map[string]*ment
	assets map[string]string
	idx    *midx
	alt    []*midx // after a disturbed indexing: each index file may be of these generations instead (nil: absent)
}
type Model struct {
	u     map[string]*Pkg // universe by ID
	repos map[string]*mrepo
	pool  map[string]int // content of each pooled ID
}

func newModel(u map[string]*Pkg) *Model {
	return &Model{u: u, repos: map[string]*mrepo{}, pool: map[string]int{}}
}

func (m *Model) clone() *Model {
	n := newModel(m.u)
	for k, r := range m.repos {
		n.repos[k] = r.clone()
	}
	for k, v := range m.pool {
		n.pool[k] = v
	}
	return n
}
func (r *mrepo) clone() *mrepo {
	n := &mrepo{names: map[string]*ment{}, assets: map[string]string{}, idx: r.idx, alt: r.alt}
	for k, e := range r.names {
		c := &ment{avail: map[string]bool{}, pub: e.pub}
		for id := range e.avail {
			c.avail[id] = true
		}
		n.names[k] = c
	}
	for k, v := range r.assets {
		n.assets[k] = v
	}
	return n
}

func (r *mrepo) ids() map[string]bool {
	o := map[string]bool{}
	for _, e := range r.names {
		for id := range e.avail {
			o[id] = true
		}
	}
	return o
}

// lagging: the package was removed, which could not be published, and another build of it was added.
func (m *Model) lagging(repo, id string) bool {
	for _, g := range append([]*midx{m.repos[repo].idx}, m.repos[repo].alt...) {
		if g == nil {
			continue
		}
		for _, p := range g.pubs {
			if v, ok := m.pool[id]; p.id == id && ok && v != p.v {
				return true
			}
		}
	}
	return false
}

func (m *Model) refs() map[string]int {
	o := map[string]int{}
	for _, r := range m.repos {
		for id := range r.ids() {
			o[id]++
		}
	}
	return o
}

func newMrepo() *mrepo { return &mrepo{names: map[string]*ment{}, assets: map[string]string{}} }

// put adds a package file; the content of an ID that is already pooled stays.
func (m *Model) put(r *mrepo, id string, v int) {
	if _, ok := m.pool[id]; !ok {
		m.pool[id] = v
	}
	m.add(r, id)
}

// purge forgets pooled contents nobody refers to.
func (m *Model) purge(keep map[string]bool) {
	refs := m.refs()
	for id := range m.pool {
		if refs[id] == 0 && !keep[id] {
			delete(m.pool, id)
		}
	}
}

func (m *Model) add(r *mrepo, id string) {
	p := m.u[id]
	e := r.names[p.Name]
	if e == nil {
		e = &ment{avail: map[string]bool{}}
		r.names[p.Name] = e
	}
	e.avail[id] = true
	m.fix(r, p.Name)
}
func (m *Model) drop(r *mrepo, id string) {
	p := m.u[id]
	if e := r.names[p.Name]; e != nil {
		delete(e.avail, id)
		m.fix(r, p.Name)
	}
}
func (m *Model) fix(r *mrepo, name string) {
	e := r.names[name]
	if len(e.avail) == 0 {
		delete(r.names, name)
		return
	}
	e.pub = ""
	for id := range e.avail {
		if e.pub == "" || m.u[id].Rel > m.u[e.pub].Rel {
			e.pub = id
		}
	}
}

func obsoletes(dist string) map[string]bool {
	o := map[string]bool{}
	if n, err := parseXML([]byte(dist)); err == nil {
		if k := n.kid("Obsoletes"); k != nil {
			for _, p := range k.all("Package") {
				o[strings.TrimSpace(p.text)] = true
			}
		}
	}
	return o
}
func badXML(s string) bool { _, err := parseXML([]byte(s)); return err != nil }

func isObs(obs map[string]bool, name string) bool {
	return obs[name] || obs[strings.TrimSuffix(name, "-dbginfo")]
}

func (m *Model) index(r *mrepo) error {
	for _, v := range r.assets {
		if badXML(v) {
			return fmt.Errorf("bad asset")
		}
	}
	obs := obsoletes(r.assets["distribution.xml"])
	x := &midx{assets: map[string]string{}}
	for n, e := range r.names {
		if isObs(obs, n) {
			continue
		}
		x.pubs = append(x.pubs, pref{e.pub, m.pool[e.pub]})
	}
	sort.Slice(x.pubs, func(a, b int) bool { return x.pubs[a].id < x.pubs[b].id })
	for k, v := range r.assets {
		x.assets[k] = v
	}
	x.key = fmt.Sprint(x.pubs, x.assets)
	if r.idx != nil && r.idx.key == x.key {
		x = r.idx
	}
	r.idx, r.alt = x, nil
	return nil
}

// lostDir is the directory of plans with Lost.
const lostDir = "lost+found"

// badRepoName: a repository is a directory of that name, and a key in the
// database, which keeps some for itself.
func badRepoName(n string) bool {
	return n == lostDir || strings.HasPrefix(n, "|bucket|") || strings.HasPrefix(n, "|rootBucket|-") ||
		n == "" || n == "." || n == ".." || len(n) > 255 || strings.ContainsAny(n, "/\x00")
}

// apply performs job s; a non-nil error means the job must be recorded as failed.
func (m *Model) apply(s *Step, pkgs []Pkg) error {
	r := m.repos[s.Repo]
	miss := func(n string) error { return fmt.Errorf("no repository %q", n) }
	switch s.Op {
	case "create":
		if r != nil {
			return fmt.Errorf("exists")
		}
		if badRepoName(s.Repo) {
			return fmt.Errorf("invalid name")
		}
		r = newMrepo()
		m.repos[s.Repo] = r
		return m.index(r)
	case "delete":
		if r == nil {
			return miss(s.Repo)
		}
		delete(m.repos, s.Repo)
		return nil
	case "index":
		if r == nil {
			return miss(s.Repo)
		}
		return m.index(r)
	case "delta":
		if r == nil {
			return miss(s.Repo)
		}
		return nil
	case "import":
		if len(s.Pkgs)+s.Pad == 0 {
			return fmt.Errorf("nothing to import")
		}
		if r == nil {
			return miss(s.Repo)
		}
		if strings.HasPrefix(s.Mode, "missing") || s.Mode == "isdir" || s.Mode == "fifo" {
			return fmt.Errorf("missing file")
		}
		for _, i := range s.Pkgs {
			if pkgs[i].Bad != "" && pkgs[i].Bad != "nofiles" && pkgs[i].Bad != "noinstall" && pkgs[i].Bad != "badfiles" {
				return fmt.Errorf("bad package")
			}
		}
		for _, i := range s.Pkgs {
			m.put(r, pkgs[i].ID(), i)
		}
		return m.index(r)
	case "upload":
		if s.Mode != "" {
			return fmt.Errorf("invalid upload: %s", s.Mode)
		}
		if r == nil {
			return miss(s.Repo)
		}
		rels := map[string]int{}
		for _, i := range s.Pkgs {
			p := &pkgs[i]
			if p.Bad != "" && p.Bad != "nofiles" && p.Bad != "noinstall" && p.Bad != "badfiles" {
				return fmt.Errorf("bad package")
			}
			if e := r.names[p.Name]; e != nil && m.u[e.pub].Rel >= p.Rel {
				return fmt.Errorf("not newer")
			}
			if last, ok := rels[p.Name]; ok && last >= p.Rel {
				return fmt.Errorf("not newer within the upload")
			}
			rels[p.Name] = p.Rel
		}
		for _, i := range s.Pkgs {
			m.put(r, pkgs[i].ID(), i)
		}
		return m.index(r)
	case "clone":
		if r == nil {
			return miss(s.Repo)
		}
		if m.repos[s.Repo2] != nil {
			return fmt.Errorf("exists")
		}
		if badRepoName(s.Repo2) {
			return fmt.Errorf("invalid name")
		}
		t := newMrepo()
		m.repos[s.Repo2] = t
		for k, v := range r.assets {
			t.assets[k] = v
		}
		for _, e := range r.names {
			if s.Flag {
				for id := range e.avail {
					m.add(t, id)
				}
			} else {
				m.add(t, e.pub)
			}
		}
		return m.index(t)
	case "pull":
		q := m.repos[s.Repo2]
		if q == nil {
			return miss(s.Repo2)
		}
		if r == nil {
			return miss(s.Repo)
		}
		for k, v := range q.assets {
			r.assets[k] = v
		}
		var ids []string
		for n, e := range q.names {
			l := r.names[n]
			switch {
			case l == nil || m.u[e.pub].Rel > m.u[l.pub].Rel:
				ids = append(ids, e.pub)
			case m.u[e.pub].Rel < m.u[l.pub].Rel:
				return fmt.Errorf("target is newer")
			}
		}
		for _, id := range ids {
			m.add(r, id)
		}
		return m.index(r)
	case "copy":
		t := m.repos[s.Repo2]
		if r == nil {
			return miss(s.Repo)
		}
		if t == nil {
			return miss(s.Repo2)
		}
		ids := m.bySource(r, s.Src, s.Rel)
		if len(ids) == 0 {
			return fmt.Errorf("no match")
		}
		for _, id := range ids {
			m.add(t, id)
		}
		if s.Flag {
			return nil
		}
		return m.index(t)
	case "rmsrc":
		if r == nil {
			return miss(s.Repo)
		}
		ids := m.bySource(r, s.Src, s.Rel)
		if len(ids) == 0 {
			return fmt.Errorf("no match")
		}
		for _, id := range ids {
			m.drop(r, id)
		}
		return m.index(r)
	case "trim":
		if r == nil {
			return miss(s.Repo)
		}
		if s.Rel < 1 {
			return fmt.Errorf("maxKeep too small")
		}
		for _, e := range r.names {
			var ids []string
			for id := range e.avail {
				ids = append(ids, id)
			}
			sort.Slice(ids, func(a, b int) bool { return m.u[ids[a]].Rel > m.u[ids[b]].Rel })
			for i, id := range ids {
				if i >= s.Rel {
					delete(e.avail, id)
				}
			}
		}
		return m.index(r)
	case "trimobs":
		if r == nil {
			return miss(s.Repo)
		}
		d, ok := r.assets["distribution.xml"]
		if !ok {
			return fmt.Errorf("no distribution.xml")
		}
		if badXML(d) {
			return fmt.Errorf("bad distribution.xml")
		}
		obs := obsoletes(d)
		for n := range r.names {
			if isObs(obs, n) {
				delete(r.names, n)
			}
		}
		return m.index(r)
	}
	return nil
}

// key identifies the state.
func (m *Model) key() string {
	var b strings.Builder
	for _, n := range sortedKeys(m.repos) {
		r := m.repos[n]
		fmt.Fprintf(&b, "%s{", n)
		for _, k := range sortedKeys(r.names) {
			fmt.Fprintf(&b, "%s:%s,%v;", k, r.names[k].pub, sortedKeys(r.names[k].avail))
		}
		for _, k := range sortedKeys(r.assets) {
			fmt.Fprintf(&b, "%s=%d;", k, len(r.assets[k]))
			b.WriteString(r.assets[k])
		}
		b.WriteString("|")
		if r.idx != nil {
			b.WriteString(r.idx.key)
		}
		for _, a := range r.alt {
			if a != nil {
				b.WriteString("/" + a.key)
			} else {
				b.WriteString("/nil")
			}
		}
	}
	for _, k := range sortedKeys(m.pool) {
		fmt.Fprintf(&b, "%s=%d;", k, m.pool[k])
	}
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (m *Model) bySource(r *mrepo, src string, rel int) (ids []string) {
	for id := range r.ids() {
		p := m.u[id]
		if p.Src == src && (rel <= 0 || p.Rel == rel) {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	return
}
