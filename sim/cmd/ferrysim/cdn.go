package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"verif.local/sim/rt"
	simos "verif.local/sim/shim/os"
)

// The content delivery network in front of the published repositories: the daemon asks it to
// drop its copies of the listed files once an index has been published.

// CDNPlan is the daemon's configuration for it.
type CDNPlan struct {
	Token string            `json:"token,omitempty"`
	Zone  string            `json:"zone,omitempty"`
	Lists map[string]string `json:"lists,omitempty"` // the files /etc/ferryd/REPO
}

type cdnFail struct {
	at, healed int64 // wall times
	repo       string
	why        string
}

type cdnState struct {
	dirty  map[string]map[string]bool // by repository: URLs of which the network may hold old copies
	owner  map[string]string          // URL -> repository
	excuse map[string]bool
	fails  []*cdnFail
	calls  int
}

func listed(s string) (out []string) {
	for _, l := range strings.Split(s, "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	return
}

func (c *CDNPlan) on() bool { return c != nil && c.Token != "" && c.Zone != "" }

// cdnSetup writes the configuration and connects the network.
func (r *Run) cdnSetup() {
	c := r.p.CDN
	r.cdn = &cdnState{dirty: map[string]map[string]bool{}, owner: map[string]string{}, excuse: map[string]bool{}}
	r.w.OnWeb = r.onWeb
	r.w.OnWebEnd = r.onWebEnd
	if c == nil {
		return
	}
	r.w.FS.MkdirAll("/etc/ferryd", 0o755)
	for _, repo := range sortedKeys(c.Lists) {
		simos.WriteFile("/etc/ferryd/"+repo, []byte(c.Lists[repo]), 0o644)
		for _, u := range listed(c.Lists[repo]) {
			r.cdn.owner[u] = repo
		}
	}
}

func (r *Run) cdnEnv(p *rt.Proc) {
	if c := r.p.CDN; c != nil {
		if c.Token != "" {
			p.Env["CLOUDFLARE_API_TOKEN"] = c.Token
		}
		if c.Zone != "" {
			p.Env["CLOUDFLARE_ZONE_ID"] = c.Zone
		}
	}
}

// cdnObserve follows the published files.
func (r *Run) cdnObserve(op *rt.Op, repo, rest string) {
	if !r.p.CDN.on() || !indexFileSet[rest] {
		return
	}
	switch op.Kind {
	case "unlink", "rmdir":
		return
	case "rename":
		if p, q, ok := splitRepoPath(op.Path2); !ok || p != repo || q != rest {
			return
		}
	}
	l := listed(r.p.CDN.Lists[repo])
	if len(l) == 0 {
		return
	}
	d := map[string]bool{}
	for _, u := range l {
		d[u] = true
	}
	r.cdn.dirty[repo] = d
}

var errWeb = errors.New("read: connection reset by peer")

// onWeb is the outside world.
func (r *Run) onWeb(c *rt.WebCall) {
	w := r.w
	if r.viol != nil {
		c.Err = errWeb
		return
	}
	cfg := r.p.CDN
	r.cdn.calls++
	w.Stats["cdn.request"]++
	w.Mix("web " + c.Method + c.URL + string(c.Body))
	w.Tracef("web: %s %s %s", c.Method, c.URL, c.Body)
	if !cfg.on() {
		r.fail([]string{"C23"}, "cdn-sent", "the daemon sent %s %s, though it is not configured to", c.Method, c.URL)
		c.Err = errWeb
		return
	}
	var req map[string]json.RawMessage
	var files []string
	why := ""
	switch {
	case c.Method != "POST" || c.URL != "https://api.cloudflare.com/client/v4/zones/"+cfg.Zone+"/purge_cache":
		why = "is not a purge of the configured zone"
	case c.Auth != "Bearer "+cfg.Token:
		why = "does not carry the configured token"
	case json.Unmarshal(c.Body, &req) != nil:
		why = "has a malformed body"
	default:
		for _, k := range sortedKeys(req) {
			if k != "files" {
				why = "asks for more than the listed files to be dropped"
			}
		}
		if why == "" && json.Unmarshal(req["files"], &files) != nil {
			why = "has a malformed body"
		}
	}
	repo := ""
	for _, f := range files {
		o := r.cdn.owner[f]
		switch {
		case why != "":
		case o == "":
			why = fmt.Sprintf("names %q, which is not listed", f)
		case repo != "" && o != repo:
			why = "mixes the files of several repositories"
		}
		repo = o
	}
	if why != "" {
		r.fail([]string{"C23"}, "cdn-request", "the request %s %s %s %s", c.Method, c.URL, clip(string(c.Body)), why)
		c.Err = errWeb
		return
	}
	c.Data = repo
	mode := ""
	ms := 0
	for _, a := range r.arms {
		if a.done || a.f.Kind != "cdn" {
			continue
		}
		if a.n++; a.n < a.f.Nth {
			continue
		}
		if a.left--; a.left <= 0 {
			a.done = true
		}
		mode, ms = a.f.Mode, a.f.Ms
		w.Stats["fault.cdn."+mode]++
		w.Mix("cdn " + mode)
		r.lastDisturb = w.Now()
		r.phCdn++
	}
	purge := func() {
		for _, f := range files {
			delete(r.cdn.dirty[repo], f)
		}
		if len(r.cdn.dirty[repo]) == 0 {
			delete(r.cdn.dirty, repo)
			delete(r.cdn.excuse, repo)
			for _, f := range r.cdn.fails {
				if f.repo == repo && f.healed == 0 {
					f.healed = w.WallNow().UnixNano()
				}
			}
		}
	}
	answer := func(code int, s string) { c.Code, c.Reply = code, []byte(s) }
	fine := fmt.Sprintf(`{"success":true,"errors":[],"messages":[],"result":{"id":%q}}`, cfg.Zone)
	switch mode {
	case "error":
		c.Err = errWeb
	case "drop":
		purge()
		c.Err = errWeb
	case "refuse":
		answer(200, `{"success":false,"errors":[{"code":1012,"message":"Request must contain one of \"purge_everything\" or \"files\""}],"messages":[],"result":null}`)
	case "empty":
		answer(200, `{"success":false,"errors":[],"messages":[],"result":null}`)
	case "none":
		answer(200, `{"success":false}`)
	case "400":
		answer(400, `{"success":false,"errors":[{"code":1012,"message":"no"}],"messages":[],"result":null}`)
	case "403":
		answer(403, `{"success":false,"errors":[],"messages":[],"result":null}`)
	case "429":
		answer(429, `{"success":false,"errors":[{"code":971,"message":"throttled"}],"messages":[],"result":null}`)
	case "500":
		answer(500, `oops`)
	case "html":
		answer(200, `<html>Please wait</html>`)
	case "stall":
		c.Forever = true
		r.sumWait += 300 * sec
	case "slow":
		purge()
		c.Wait = int64(ms) * 1e6
		r.sumWait += c.Wait
		answer(200, fine)
	case "kill":
		r.kills = append(r.kills, w.WallNow().UnixNano())
		r.phKills++
		r.killDown = int64(ms)*1e6 + 1
		w.Stats["fault.kill"]++
		c.Forever = true
		p := r.proc
		w.Spawn(w.HarnessP, "killer", func() {
			if p.Alive {
				w.Kill(p)
			}
		})
	default:
		if len(files) == 0 {
			answer(400, `{"success":false,"errors":[{"code":1012,"message":"Request must contain one of \"purge_everything\" or \"files\""}],"messages":[],"result":null}`)
			break
		}
		purge()
		answer(200, fine)
	}
	if mode != "" && mode != "slow" && mode != "kill" {
		r.sumWait += 8 * sec // the library tries again after 1, 2 and 4 s
	}
}

func (r *Run) onWebEnd(c *rt.WebCall, err error) {
	ok := struct {
		Success bool `json:"success"`
	}{}
	if err == nil && c.Code == 200 && json.Unmarshal(c.Reply, &ok) == nil && ok.Success {
		return
	}
	repo, _ := c.Data.(string)
	why := fmt.Sprintf("code %d", c.Code)
	if err != nil {
		why = err.Error()
	}
	f := &cdnFail{at: r.w.WallNow().UnixNano(), repo: repo, why: why}
	if len(r.cdn.dirty[repo]) == 0 {
		f.healed = f.at
	}
	r.cdn.fails = append(r.cdn.fails, f)
	r.w.Tracef("web: failed: %s", why)
}

// cdnFailed: a purge failed during the job (known: and the network was not told otherwise).
func (r *Run) cdnFailed(j *jobRec) (failed *cdnFail, open bool) {
	if r.cdn == nil {
		return
	}
	for _, f := range r.cdn.fails {
		for _, t := range j.op.s.targets() {
			if (f.repo == t || f.repo == "") && f.at >= j.B && f.at <= j.E {
				failed = f
				open = open || f.healed == 0 || f.healed > j.E
			}
		}
	}
	return
}

// cdnJudge: nothing published is still to be dropped, unless a job said that it failed.
func (r *Run) cdnJudge(seq []*jobRec, repos map[string]map[string]string, racing bool) {
	if r.cdn == nil || !r.p.CDN.on() {
		return
	}
	bad := map[string]bool{}
	last := map[string]string{}
	for _, j := range seq {
		for _, t := range j.op.s.targets() {
			last[t] = j.Desc
			if j.Failed {
				bad[t] = true
			}
			if f, open := r.cdnFailed(j); f != nil && open && !j.Failed && !r.clockJmp {
				r.fail(append([]string{"C23"}, r.ctxTags()...), "cdn-hidden", "job %q completed, though its purge failed: %s", j.Desc, f.why)
				return
			}
		}
	}
	for _, repo := range sortedKeys(r.cdn.dirty) {
		if repos[repo] == nil {
			delete(r.cdn.dirty, repo)
			delete(r.cdn.excuse, repo)
			continue
		}
		if bad[repo] || racing {
			r.cdn.excuse[repo] = true
		}
		if !r.cdn.excuse[repo] {
			l := sortedKeys(r.cdn.dirty[repo])
			sort.Strings(l)
			r.fail(append([]string{"C23"}, r.ctxTags()...), "cdn-stale", "the index of %s was published (last job: %q), but the network was not asked afterwards to drop %q", repo, last[repo], l)
			return
		}
	}
	r.cdn.fails = nil
}

// genCDN adds a configuration and its faults.
func (g *gen) cdn() {
	c := &CDNPlan{Lists: map[string]string{}}
	g.p.CDN = c
	switch g.n(14) {
	case 0:
		c.Token = "t0ken"
	case 1:
		c.Zone = "z0ne"
	case 2:
	default:
		c.Token, c.Zone = fmt.Sprintf("t0ken%d", g.n(100)), fmt.Sprintf("z%dne", g.n(100))
	}
	for _, repo := range repoNames {
		if !g.p1(0.75) {
			continue
		}
		var b strings.Builder
		n := g.n(5)
		if g.p1(0.1) {
			n = 25 + g.n(50)
		}
		for i := 0; i < n; i++ {
			if g.p1(0.15) {
				b.WriteString("\n")
			}
			fmt.Fprintf(&b, "https://cdn%d.example.org/%s/%s%s", g.n(1+n/3), repo, indexName, g.pick(indexFiles))
			if g.p1(0.3) {
				fmt.Fprintf(&b, "?a=%d&b=<x>", g.n(9))
			}
			if i < n-1 || g.p1(0.7) {
				b.WriteString("\n")
			}
		}
		c.Lists[repo] = b.String()
	}
}

var cdnModes = []string{"error", "drop", "refuse", "empty", "none", "400", "403", "429", "500", "html", "stall", "slow", "kill"}

func (g *gen) cdnFault() Fault {
	f := Fault{Kind: "cdn", Mode: g.pick(cdnModes), Nth: 1 + g.n(4), Count: 1}
	switch f.Mode {
	case "error", "drop", "429", "500":
		f.Count = []int{1, 2, 3, 4, 4, 8}[g.n(6)]
	case "slow":
		f.Ms = 100 + g.n(25000)
	case "kill":
		f.Ms = g.down()
	default:
		if g.p1(0.2) {
			f.Count = 1 + g.n(3)
		}
	}
	return f
}
