package main

import (
	"fmt"
	"strconv"
	"strings"

	"verif.local/sim/rt"
	simexec "verif.local/sim/shim/os/exec"
)

// The invariants that hold at every instant, checked after every change of the file system.

const indexName = "eopkg-index.xml"

var indexFiles = []string{"", ".sha1sum", ".sha256sum", ".xz", ".xz.sha1sum", ".xz.sha256sum", ".zst", ".zst.sha1sum", ".zst.sha256sum"}
var indexFileSet = func() map[string]bool {
	m := map[string]bool{}
	for _, s := range indexFiles {
		m[indexName+s] = true
	}
	return m
}()

type ipkg struct {
	id, uri, name, meta, hash string
	size                      int64
	deltas                    []string
}

// idxView is a parsed index.
type idxView struct {
	err  string
	pkgs []ipkg
	rest string
	raw  string
	sha  string
	want map[string]*ipkg // by path below the repository
}

var idxCache = map[string]*idxView{}

func parseIndex(b []byte) *idxView {
	s := sha1hex(b)
	if v, ok := idxCache[s]; ok {
		return v
	}
	if len(idxCache) > 3000 {
		idxCache = map[string]*idxView{}
	}
	v := &idxView{raw: string(b), sha: s, want: map[string]*ipkg{}}
	idxCache[s] = v
	if len(b) == 0 {
		v.err = "empty"
		return v
	}
	n, err := parseXML(b)
	if err != nil {
		v.err = err.Error()
		return v
	}
	if n.name != "PISI" {
		v.err = "root element " + n.name
		return v
	}
	var rest []string
	for _, k := range n.kids {
		if k.name != "Package" {
			rest = append(rest, k.canon(true))
			continue
		}
		p := ipkg{uri: k.val("PackageURI"), name: k.val("Name"), hash: k.val("PackageHash"), meta: metaCanon(k, false)}
		p.size, _ = strconv.ParseInt(k.val("PackageSize"), 10, 64)
		p.id = p.uri[strings.LastIndexByte(p.uri, '/')+1:]
		if d := k.kid("DeltaPackages"); d != nil {
			for _, e := range d.all("Delta") {
				p.deltas = append(p.deltas, fmt.Sprintf("%v|%s|%s|%s", e.attrs, e.val("PackageURI"), e.val("PackageSize"), e.val("PackageHash")))
			}
		}
		v.pkgs = append(v.pkgs, p)
	}
	for i := range v.pkgs {
		v.want[v.pkgs[i].uri] = &v.pkgs[i]
	}
	v.rest = strings.Join(rest, "")
	return v
}

func isHex(b []byte, n int) bool {
	if len(b) != n {
		return false
	}
	for _, c := range b {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f') {
			return false
		}
	}
	return true
}

// sumOf is the checksum in a sum file (a trailing newline or a file name may follow).
func sumOf(b []byte) []byte {
	f := strings.Fields(string(b))
	if len(f) == 0 {
		return nil
	}
	return []byte(f[0])
}

// completeFile judges one index file; "" when it is complete.
func completeFile(name string, b []byte) string {
	switch {
	case strings.HasSuffix(name, ".sha1sum"):
		if !isHex(sumOf(b), 40) {
			return fmt.Sprintf("not a complete SHA-1: %q", clip(string(b)))
		}
	case strings.HasSuffix(name, ".sha256sum"):
		if !isHex(sumOf(b), 64) {
			return fmt.Sprintf("not a complete SHA-256: %q", clip(string(b)))
		}
	case strings.HasSuffix(name, ".xz"), strings.HasSuffix(name, ".zst"):
		d, err := unpackAny(name, b)
		if err != nil {
			return err.Error()
		}
		return parseIndex(d).err
	default:
		return parseIndex(b).err
	}
	return ""
}

func unpackAny(name string, b []byte) ([]byte, error) {
	if strings.HasSuffix(name, ".xz") {
		return simexec.Unpack("XZ", b)
	}
	return simexec.Unpack("ZSTD", b)
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "…"
	}
	return s
}

type visIdx struct {
	node *rt.Inode
	gen  uint64
	v    *idxView
}

type verdictGen struct {
	gen uint64
	ok  bool
}

// shaNode is the SHA-1 of a file's present content.
type shaGen struct {
	gen uint64
	sha string
}

func (r *Run) shaOf(n *rt.Inode) string {
	if c, ok := r.shas[n]; ok && c.gen == n.Gen {
		return c.sha
	}
	s := sha1hex(n.Data)
	r.shas[n] = shaGen{n.Gen, s}
	return s
}

func splitRepoPath(p string) (repo, rest string, ok bool) {
	const pre = base + "/repo/"
	if !strings.HasPrefix(p, pre) {
		return
	}
	s := p[len(pre):]
	i := strings.IndexByte(s, '/')
	if i < 0 {
		return s, "", true
	}
	return s[:i], s[i+1:], true
}

// observe runs after every change made to the file system.
func (r *Run) observe(op *rt.Op) {
	if r.viol != nil || r.obsOff || op.Proc == r.w.HarnessP || op.Proc == nil || op.Proc.Data["harness"] != nil {
		return
	}
	for _, p := range []string{op.Path, op.Path2} {
		if p == "" {
			continue
		}
		if op.Kind == "link" && p == op.Path {
			continue // the source of a link is not changed
		}
		if !inSandbox(p) {
			r.fail([]string{"C16", "C12", "C13"}, "outside", "the daemon changed %s (%s), which is outside its base directory", p, op.Kind)
			return
		}
	}
	for _, p := range []string{op.Path, op.Path2} {
		repo, rest, ok := splitRepoPath(p)
		if !ok || rest == "" {
			continue
		}
		r.cdnObserve(op, repo, rest)
		if indexFileSet[rest] {
			r.checkVisible(repo, rest)
			if rest == indexName {
				r.checkPublished(repo, "", nil)
			}
		} else if strings.HasSuffix(rest, ".eopkg") {
			r.checkPublished(repo, rest, nil)
		} else if op.Kind == "rename" || op.Kind == "unlink" {
			r.checkPublished(repo, "", nil)
		}
		if r.viol != nil {
			return
		}
	}
	if op.Kind == "write" || op.Kind == "trunc" || op.Kind == "open" || op.Kind == "create" {
		if op.Node != nil && (op.Node.Nlink > 1 || strings.HasSuffix(op.Path, ".eopkg")) {
			for _, repo := range sortedKeys(r.repoDirs()) {
				r.checkPublished(repo, "", op.Node)
			}
		}
	}
}

func inSandbox(p string) bool {
	return p == base || strings.HasPrefix(p, base+"/") || strings.HasPrefix(p, "/run/") || strings.HasPrefix(p, "/dev/") || strings.HasPrefix(p, "/proc/") || p == sock
}

func (r *Run) repoDirs() map[string]*rt.Inode {
	if d := r.w.FS.Lookup(base + "/repo"); d != nil {
		return d.Kids
	}
	return nil
}

// checkVisible: a visible index file is complete.
func (r *Run) checkVisible(repo, name string) {
	n := r.w.FS.Lookup(base + "/repo/" + repo + "/" + name)
	if n == nil || n.IsDir() {
		return
	}
	if c, ok := r.inGen[n]; ok && c.gen == n.Gen {
		return
	}
	why := completeFile(name, n.Data)
	r.inGen[n] = verdictGen{n.Gen, why == ""}
	if why != "" {
		t := []string{"C08"}
		if r.phKills > 0 {
			t = append(t, "?C13")
		}
		if r.phFires > 0 {
			t = append(t, "?C15")
		}
		r.fail(t, "partialindex", "the visible file %s/%s is not a complete file: %s", repo, name, why)
	}
}

// published is the parsed visible index of the repository.
func (r *Run) published(repo string) *idxView {
	n := r.w.FS.Lookup(base + "/repo/" + repo + "/" + indexName)
	if n == nil || n.IsDir() {
		return nil
	}
	c := r.vis[repo]
	if c == nil || c.node != n || c.gen != n.Gen {
		c = &visIdx{n, n.Gen, parseIndex(n.Data)}
		if old := r.vis[repo]; old != nil {
			delete(r.staleOK, repo)
		}
		r.vis[repo] = c
	}
	return c.v
}

// checkPublished: the packages a visible index names are there and intact.
func (r *Run) checkPublished(repo, only string, node *rt.Inode) {
	v := r.published(repo)
	if v == nil || v.err != "" {
		return
	}
	if only != "" {
		if p := v.want[only]; p != nil {
			r.checkOne(repo, p, node)
		}
		return
	}
	for i := range v.pkgs {
		r.checkOne(repo, &v.pkgs[i], node)
	}
}

func (r *Run) checkOne(repo string, p *ipkg, node *rt.Inode) {
	if r.viol != nil {
		return
	}
	n := r.w.FS.Lookup(base + "/repo/" + repo + "/" + p.uri)
	if node != nil && n != node {
		return
	}
	if r.isExempt(repo, p.id) {
		return
	}
	why := ""
	switch {
	case n == nil || n.IsDir():
		why = "missing"
	case int64(len(n.Data)) != p.size:
		why = fmt.Sprintf("%d bytes long instead of %d", len(n.Data), p.size)
	case r.shaOf(n) != p.hash:
		why = "altered"
	}
	if why != "" {
		t := []string{"C06"}
		if r.phKills > 0 {
			t = append(t, "?C13", "?C14")
		}
		if r.phFires > 0 {
			t = append(t, "?C15")
		}
		if !r.targeted(repo) {
			t = append(t, "C11")
		}
		r.fail(t, "published", "%s, which the index of %s lists, is %s", p.uri, repo, why)
	}
}

// targeted: some job of this phase may change the repository.
func (r *Run) targeted(repo string) bool {
	for _, o := range r.phOps {
		for _, t := range o.s.targets() {
			if t == repo {
				return true
			}
		}
	}
	return false
}

func (r *Run) isExempt(repo, id string) bool {
	if r.staleOK[repo][id] {
		return true
	}
	for _, f := range r.exempt[repo] {
		if f(id) {
			return true
		}
	}
	return false
}

// noteRemoval records what a submitted removal may take out.
func (r *Run) noteRemoval(s *Step) {
	var f func(string) bool
	switch s.Op {
	case "delete":
		f = func(string) bool { return true }
	case "rmsrc":
		f = func(id string) bool {
			p := r.u[id]
			return p != nil && p.Src == s.Src && (s.Rel <= 0 || p.Rel == s.Rel)
		}
	case "trim":
		// Everything but the highest releases the repository can hold of a name.
		f = func(id string) bool {
			p := r.u[id]
			if p == nil {
				return false
			}
			newer := 0
			for _, q := range r.u {
				if q.Name == p.Name && q.Rel > p.Rel {
					newer++
				}
			}
			return s.Rel >= 1 && newer >= s.Rel
		}
	case "trimobs":
		f = func(id string) bool {
			p := r.u[id]
			if p == nil {
				return false
			}
			for _, c := range r.cands {
				if t := c.m.repos[s.Repo]; t != nil && isObs(obsoletes(t.assets["distribution.xml"]), p.Name) {
					return true
				}
			}
			// The assets may arrive by a pull or clone of the same phase.
			for _, o := range r.phOps {
				if (o.s.Op == "pull" && o.s.Repo == s.Repo) || (o.s.Op == "clone" && o.s.Repo2 == s.Repo) {
					for _, c := range r.cands {
						for _, t := range c.m.repos {
							if isObs(obsoletes(t.assets["distribution.xml"]), p.Name) {
								return true
							}
						}
					}
				}
			}
			return false
		}
	default:
		return
	}
	r.exempt[s.Repo] = append(r.exempt[s.Repo], f)
}
