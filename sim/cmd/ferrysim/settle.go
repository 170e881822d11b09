package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libferry"

	"verif.local/sim/rt"
)

func sortRecs(l []*jobRec) {
	sort.SliceStable(l, func(i, j int) bool { return l[i].E < l[j].E })
}

func statusRecs(st *libferry.StatusRequest) (cur [2][]*jobRec) {
	for _, j := range st.CompletedJobs {
		cur[0] = append(cur[0], toRec(j))
	}
	for _, j := range st.FailedJobs {
		cur[1] = append(cur[1], toRec(j))
	}
	sortRecs(cur[0])
	sortRecs(cur[1])
	return
}

func (r *Run) mustRun() int {
	n := 0
	for _, o := range r.phOps {
		if o.isJob() {
			n++
			if o.s.Op == "delta" {
				n += 12
			}
		}
	}
	return n
}

func (r *Run) unsure() bool {
	for _, o := range r.phOps {
		if o.s.Op == "upload" && (o.ambiguous || o.s.Flag) {
			return true
		}
	}
	return false
}

// settle waits until the system is idle and judges everything.
func (r *Run) settle(ph *Phase) {
	w := r.w
	lf := libferry.NewClient(sock)
	defer lf.Close()
	start := w.Now()
	bad, idle := 0, int64(-1)
	var st *libferry.StatusRequest
	waitIdle := func() {
		for {
			r.waitUp()
			inc, fires := r.inc, len(r.fires)
			var err error
			st, err = lf.GetStatus()
			now := w.Now()
			last := max(start, r.lastDisturb)
			limit := last + int64(r.mustRun()+4)*4*sec + 60*sec + 2*r.sumWait
			switch {
			case r.inc != inc || !r.proc.Alive || r.terming || len(r.fires) != fires:
				idle = -1
				if now > limit+600*sec {
					r.fail(append([]string{"C17"}, r.ctxTags()...), "stuck", "no quiet moment")
				}
			case err != nil:
				if bad++; bad > 6 && !r.ioArmed() {
					r.fail(append([]string{"C04", "C17"}, r.ctxTags()...), "status", "the status request keeps failing on a healthy daemon: %v", err)
				}
				w.Sleep(sec / 2)
			case len(st.CurrentJobs) == 0:
				bad = 0
				if idle < 0 {
					idle = now
				}
				need := int64(0)
				if r.unsure() {
					need = 6 * sec
				}
				if now-idle >= need {
					return
				}
			default:
				bad, idle = 0, -1
				if now > limit && r.dbHit {
					// The database library refuses all writes after a failed one.
					r.kf["db-stuck"] = "db-stuck"
					w.Mix("kf db-stuck")
					return
				}
				if now > limit {
					t := []string{"C01", "C17", "C02"}
					if len(r.kills) > 0 {
						t = append(t, "?C13", "?C14")
					}
					if len(r.terms) > 0 {
						t = append(t, "?C18")
					}
					r.fail(append(t, r.ctxTags()...), "stuck", "%d jobs are still listed %d s after the last disturbance: %q", len(st.CurrentJobs), (now-last)/sec, descs(st.CurrentJobs))
				}
			}
			w.Sleep(sec * 7 / 10)
		}
	}
	waitIdle()
	r.arms = nil
	if r.dbHit {
		r.aftermath(lf)
		return
	}
	r.judge(lf, st)
	w.Mix("settled")
	if ph.Heal {
		r.phFires = 0
	}
}

func descs(js []*libferry.Job) (out []string) {
	for _, j := range js {
		if len(out) < 6 {
			out = append(out, j.Description)
		}
	}
	return
}

func (o *opRec) matchesRec(j *jobRec) bool {
	if o.s.Op == "import" && len(o.s.Pkgs)+o.s.Pad == 0 {
		return (j.Desc == "" || j.Desc == o.s.Describe()) && j.Failed && !strings.Contains(j.Err, "unknown job type")
	}
	return o.matchesDesc(j.Desc)
}

func (r *Run) judge(lf *libferry.Client, st *libferry.StatusRequest) {
	w := r.w
	cur := statusRecs(st)
	resets := map[int]bool{}
	hasJobs := false
	for _, o := range r.phOps {
		switch o.s.Op {
		case "resetc":
			resets[0] = true
		case "resetf":
			resets[1] = true
		}
		hasJobs = hasJobs || o.isJob()
	}
	// --- the histories ---
	var fresh []*jobRec
	names := []string{"success", "failure"}
	for h := 0; h < 2; h++ {
		if len(cur[h]) > 100 {
			r.fail([]string{"C04"}, "history", "the %s history holds %d jobs", names[h], len(cur[h]))
			return
		}
		old := map[string]int{}
		for _, j := range r.oldRecs[h] {
			old[j.key()]++
		}
		n := 0
		for _, j := range cur[h] {
			if old[j.key()] > 0 {
				old[j.key()]--
				continue
			}
			n++
			fresh = append(fresh, j)
			if j.Failed != (h == 1) || j.Failed != (j.Err != "") {
				r.fail([]string{"C04"}, "outcomefield", "the %s history lists %q with failed=%v, error %q", names[h], j.Desc, j.Failed, j.Err)
				return
			}
			if !r.clockJmp && (j.Q == 0 || j.Q > j.B || j.B > j.E) {
				r.fail(append([]string{"C04"}, r.ctxTags()...), "times", "job %q has times queued %d, begin %d, end %d", j.Desc, j.Q, j.B, j.E)
				return
			}
		}
		if resets[h] {
			if !hasJobs && len(cur[h]) > 0 && r.allAcked() {
				r.fail([]string{"C04"}, "reset", "the %s history holds %d jobs after its reset", names[h], len(cur[h]))
				return
			}
			continue
		}
		if r.clockJmp {
			continue
		}
		// Survivors: the most recent ones.
		keep := r.oldRecs[h]
		if n >= 100 {
			keep = nil
		} else if len(keep) > 100-n {
			keep = keep[len(keep)-(100-n):]
		}
		have := map[string]int{}
		for _, j := range cur[h] {
			have[j.key()]++
		}
		for _, j := range keep {
			if have[j.key()] == 0 {
				t := []string{"C04"}
				if len(r.oldRecs[h])+n <= 100 {
					t = append(t, "C01")
				}
				r.fail(append(t, r.ctxTags()...), "lostrecord", "the %s history of %d jobs no longer lists %q (of %d before, %d new)", names[h], len(cur[h]), j.Desc, len(r.oldRecs[h]), n)
				return
			}
			have[j.key()]--
		}
	}
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].B < fresh[j].B })
	// --- jobs and records ---
	var async []*jobRec
	var seq []*jobRec
	byDesc := map[string][]*opRec{}
	keyOf := func(o *opRec) string {
		if o.s.Op == "upload" {
			return o.s.Name
		}
		if o.s.Op == "import" && len(o.s.Pkgs)+o.s.Pad == 0 {
			return "Add 0 packages"
		}
		return o.s.Describe()
	}
	for _, o := range r.phOps {
		o.rec = nil
		if o.isJob() {
			byDesc[keyOf(o)] = append(byDesc[keyOf(o)], o)
		}
	}
	var groups []string
	group := map[string][]*jobRec{}
	for _, j := range fresh {
		if j.Desc == "" && strings.Contains(j.Err, "unknown job type") {
			async = append(async, j)
			continue
		}
		found := ""
		for _, k := range sortedKeys(byDesc) {
			if byDesc[k][0].matchesRec(j) {
				found = k
				break
			}
		}
		if found == "" {
			r.fail(append([]string{"C04", "C03", "C01"}, r.ctxTags()...), "unknownrecord", "the history lists a job that was never requested: %q (%s)", j.Desc, j.Err)
			return
		}
		if group[found] == nil {
			groups = append(groups, found)
		}
		group[found] = append(group[found], j)
		seq = append(seq, j)
	}
	racing := func(h int) bool { return resets[h] && hasJobs }
	for _, k := range sortedKeys(byDesc) {
		ops, recs := byDesc[k], group[k]
		sure, all := 0, len(ops)
		for _, o := range ops {
			if o.acked {
				sure++
			}
		}
		if len(recs) < sure && !racing(0) && !racing(1) {
			t := append([]string{"C01"}, r.ctxTags()...)
			if len(ops) > 1 || len(r.p.Phases[r.ph].Clients) > 1 {
				t = append(t, "C03")
			}
			r.fail(t, "lostjob", "%d accepted jobs %q, but the history got %d records and the queue is empty", sure, k, len(recs))
			return
		}
		if len(recs) > all {
			t := append([]string{"C03", "C01", "C04"}, r.ctxTags()...)
			r.fail(t, "twice", "%d requests %q led to %d records", all, k, len(recs))
			return
		}
		r.assign(ops, recs)
	}
	if r.viol != nil {
		return
	}
	// --- order ---
	multi := len(r.p.Phases[r.ph].Clients) > 1
	if !r.clockJmp {
		for i := 1; i < len(seq); i++ {
			if seq[i-1].E > seq[i].B {
				r.fail(append([]string{"C02", "C03"}, r.ctxTags()...), "overlap", "jobs %q and %q ran at the same time", seq[i-1].Desc, seq[i].Desc)
				return
			}
		}
		if a, b := r.misordered(byDesc, group); a != nil {
			r.fail(append([]string{"C02"}, r.ctxTags()...), "order", "job %q was accepted before %q but ran after it", a.s.Describe(), b.s.Describe())
			return
		}
	} else if !multi {
		sort.SliceStable(seq, func(i, j int) bool { return seq[i].op.n < seq[j].op.n })
	}
	for _, pj := range r.probeJobs {
		for _, j := range seq {
			if j.Desc == pj.Desc && j.Q == pj.Q && j.B != pj.B && !r.clockJmp {
				r.fail([]string{"C18"}, "rerun", "job %q was running when the daemon was asked to stop and was run again after the restart", j.Desc)
				return
			}
		}
	}
	r.probeJobs = nil
	// --- effects ---
	intr := map[*jobRec]bool{}
	for _, k := range r.kills[r.killsBefore:] {
		for _, j := range seq {
			if j.B > k {
				if j.Q < k {
					intr[j] = true
				}
				break
			}
		}
	}
	t := newTouches()
	r.prev = r.cands
	cs := r.cands
	for i := range cs {
		c := *cs[i]
		c.async = [2]int{}
		c.kf = nil
		cs[i] = &c
	}
	incoming := map[string]string{}
	for k, v := range r.incoming {
		incoming[k] = v
	}
	fuzzyIn := map[string]bool{}
	for _, j := range seq {
		faulty := false
		for i, f := range r.fires {
			from := j.B
			if f.class == "db" {
				from -= 10 * sec // a failed compaction is tried again after up to 8 s
			} else if i < r.firesBefore {
				continue
			}
			if f.kind != "stall" && (f.at >= from && f.at <= j.E || intr[j] && i >= r.firesBefore) {
				faulty = true
			}
		}
		var next []*cand
		why := ""
		for _, c := range cs {
			if j.op.s.Op == "delta" {
				mr := c.m.repos[j.op.s.Repo]
				if (mr == nil) == j.Failed {
					n := c.fork(c.m)
					if mr != nil {
						k := len(mr.names)
						n.async[0] += k
						n.async[1] += k
						if intr[j] {
							n.async[1] += k * len(r.kills[r.killsBefore:])
						}
					}
					next = append(next, n)
				} else if faulty || intr[j] {
					n := c.fork(c.m)
					if mr != nil {
						n.async[1] += len(mr.names) * (1 + len(r.kills[r.killsBefore:]))
					}
					next = append(next, n)
				}
				continue
			}
			o := r.outcomes(c, j.op, j, intr[j], faulty, t)
			next = append(next, o...)
			if len(next) > 2*maxCands {
				next = dedup(next)
			}
			if len(next) > maxCands {
				r.status = "too many candidates"
				return
			}
			if len(o) == 0 && why == "" {
				q := c.m.clone()
				if e := q.apply(j.op.s, r.p.Pkgs); e != nil {
					why = "it must fail (" + e.Error() + ")"
				} else {
					why = "it must succeed"
				}
			}
		}
		next = dedup(next)
		if len(next) == 0 {
			res := "completed"
			if j.Failed {
				res = "failed: " + j.Err
			}
			tags := append([]string{opTag(j.op.s.Op), "C03"}, r.ctxTags()...)
			if !multi {
				tags = append([]string{opTag(j.op.s.Op)}, r.ctxTags()...)
			}
			if len(r.kills) > 0 && r.phKills == 0 {
				tags = append(tags, "?C13")
			}
			if len(r.fires) > 0 && r.phFires == 0 {
				tags = append(tags, "?C15")
			}
			if j.Failed && (r.leftover || len(r.fires) > 0 || len(r.kills) > 0) {
				tags = append(tags, "C08")
			}
			r.fail(tags, "outcome", "job %q (%s) %s, but %s", j.Desc, j.op.s, res, why)
			return
		}
		if len(next) > maxCands {
			r.status = "too many candidates"
			return
		}
		cs = next
		if j.op.s.Op == "upload" {
			switch {
			case !j.Failed:
				for _, f := range j.op.files {
					if faulty {
						fuzzyIn[f] = true
					} else {
						delete(incoming, f)
					}
				}
			case intr[j] || faulty:
				for _, f := range j.op.files {
					fuzzyIn[f] = true
				}
			}
		}
	}
	if len(async) > 0 || hasDelta(r.phOps) {
		var next []*cand
		for _, c := range cs {
			if len(async) >= c.async[0] && len(async) <= c.async[1] {
				next = append(next, c)
			}
		}
		if len(next) == 0 && !racing(1) {
			r.fail(append([]string{"C03", "C01"}, r.ctxTags()...), "async", "%d background jobs were executed instead of %v", len(async), cs[0].async)
			return
		}
		if len(next) > 0 {
			cs = next
		}
	}
	// --- state ---
	inc := r.inc
	snap, err := r.takeSnapshot(lf)
	if err != nil {
		if r.inc == inc && r.proc.Alive {
			r.fail(append([]string{"C05", "C17"}, r.ctxTags()...), "list", "the idle daemon refuses to list: %v", err)
		}
		r.status = "snapshot: " + err.Error()
		return
	}
	if r.trace {
		w.Tracef("judging %d candidates, %d records", len(cs), len(seq))
	}
	var ok []*cand
	var best []mismatch
	for _, c := range cs {
		n, mm := r.compare(c, snap, t)
		if len(mm) == 0 {
			ok = append(ok, n)
		} else if best == nil || len(mm) < len(best) {
			best = mm
		}
	}
	if len(ok) == 0 {
		if r.capped {
			r.status = "capped"
			return
		}
		m := best[0]
		tags := append([]string{}, m.tags...)
		var more []string
		for _, x := range best {
			tags = append(tags, x.tags...)
			if len(more) < 5 {
				more = append(more, x.msg)
			}
		}
		r.fail(append(tags, r.ctxTags()...), "state-"+m.kind, "%s", strings.Join(more, "; "))
		return
	}
	// Prefer explanations that need no known finding.
	var plain []*cand
	for _, c := range ok {
		if len(c.kf) == 0 {
			plain = append(plain, c)
		}
	}
	if plain != nil {
		ok = plain
	} else {
		for _, k := range ok[0].kf {
			r.kf[k] = fmt.Sprintf("%v", k)
			w.Mix("kf " + k)
		}
	}
	r.cands = dedup(ok)
	r.cdnJudge(seq, snap.tree, racing(0) || racing(1))
	if r.viol != nil {
		return
	}
	// uploads
	for _, p := range sortedKeys(fuzzyIn) {
		if _, there := snap.incoming[p]; !there {
			delete(incoming, p)
		}
	}
	if !sameMap(incoming, snap.incoming) {
		d := symdiff(sortedKeys(incoming), sortedKeys(snap.incoming))
		r.fail(append([]string{"C12"}, r.ctxTags()...), "incoming", "the upload directory differs in %v (expected %v, is %v)", d, sortedKeys(incoming), sortedKeys(snap.incoming))
		return
	}
	r.incoming = incoming
	if !sameMap(r.srcFiles, snap.src) {
		d := symdiff(sortedKeys(r.srcFiles), sortedKeys(snap.src))
		r.fail(append([]string{"C16", "C12"}, r.ctxTags()...), "sources", "files outside the base directory were changed: %v", d)
		return
	}
	if n := w.FS.Lookup("/etc/canary.eopkg"); n == nil || string(n.Data) != "untouched" {
		r.fail([]string{"C16", "C12"}, "canary", "/etc/canary.eopkg was changed")
		return
	}
	if n := w.FS.Lookup(base + "/repo/" + lostDir + "/keep"); r.p.Lost && (n == nil || string(n.Data) != "untouched" || w.FS.Lookup(base+"/repo/"+lostDir+"/"+indexName) != nil) {
		r.fail([]string{"C16", "C06"}, "artifacts", "the directory %s, which was there before and is no repository, was changed", lostDir)
		return
	}
	for x := range t.tmp {
		r.tmpLeft[x] = true
		r.leftover = true
	}
	for x := range t.gone {
		r.ghosts[x] = true
	}
	// remember
	for _, c := range r.cands {
		for repo, mr := range c.m.repos {
			if mr.idx != nil && mr.alt == nil {
				r.idxBytes[mr.idx.key] = sha1hex(snap.idx[repo][indexName])
			}
		}
	}
	r.oldRecs = cur
	r.staleOK = map[string]map[string]bool{}
	for repo := range snap.tree {
		v := r.published(repo)
		if v == nil {
			continue
		}
		for i := range v.pkgs {
			id := v.pkgs[i].id
			for _, c := range r.cands {
				mr := c.m.repos[repo]
				if mr == nil || !mr.ids()[id] || c.miss[repo+"|"+id] || c.m.lagging(repo, id) {
					if r.staleOK[repo] == nil {
						r.staleOK[repo] = map[string]bool{}
					}
					r.staleOK[repo][id] = true
				}
			}
		}
	}
	r.exempt = map[string][]func(string) bool{}
	for _, repo := range sortedKeys(snap.tree) {
		r.checkPublished(repo, "", nil)
	}
	w.MixCoarse(r.cands[0].m.key())
	r.stats["settles"]++
	r.stats["jobs"] += len(seq)
	if len(intr) > 0 {
		r.stats["interrupted"] += len(intr)
	}
}

func hasDelta(ops []*opRec) bool {
	for _, o := range ops {
		if o.s.Op == "delta" {
			return true
		}
	}
	return false
}

func (r *Run) allAcked() bool {
	for _, o := range r.phOps {
		if (o.s.Op == "resetc" || o.s.Op == "resetf") && !o.acked {
			return false
		}
	}
	return true
}

// assign pairs records with the requests that caused them.
func (r *Run) assign(ops []*opRec, recs []*jobRec) {
	rs := append([]*jobRec{}, recs...)
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].Q < rs[j].Q })
	left := rs[:0:0]
	if !r.clockJmp {
		for _, j := range rs {
			var hit *opRec
			for _, o := range ops {
				if o.rec == nil && o.s.Op != "upload" && j.Q >= o.sentWall && (j.Q <= o.doneWall || !o.acked) && (hit == nil || o.acked && !hit.acked) {
					hit = o
				}
			}
			if hit != nil {
				hit.rec, j.op = j, hit
			} else {
				left = append(left, j)
			}
		}
	} else {
		left = rs
	}
	for _, j := range left {
		var hit *opRec
		for _, o := range ops {
			if o.rec == nil && (hit == nil || o.acked && !hit.acked) {
				hit = o
			}
		}
		if hit == nil {
			continue
		}
		hit.rec, j.op = j, hit
	}
}

// misordered finds two jobs that ran against the order in which they were accepted. Records of
// equal requests cannot be told apart, so those are counted.
func (r *Run) misordered(byDesc map[string][]*opRec, group map[string][]*jobRec) (*opRec, *opRec) {
	for _, ka := range sortedKeys(byDesc) {
		for _, kb := range sortedKeys(byDesc) {
			as, bs := byDesc[ka], byDesc[kb]
			if (as[0].s.Op == "upload") != (bs[0].s.Op == "upload") || len(group[ka]) != len(as) || len(group[kb]) != len(bs) {
				continue
			}
			if len(bs) == 1 && bs[0].acked && ka != kb {
				b, rb := bs[0], group[kb][0]
				var last *opRec
				n := 0
				for _, a := range as {
					if a.acked && before(a, b) {
						n++
						last = a
					}
				}
				for _, j := range group[ka] {
					if j.B < rb.B {
						n--
					}
				}
				if n > 0 {
					return last, b
				}
			}
			if len(as) == 1 && as[0].acked && ka != kb {
				a, ra := as[0], group[ka][0]
				var last *opRec
				n := 0
				for _, b := range bs {
					if b.acked && before(a, b) {
						n++
						last = b
					}
				}
				for _, j := range group[kb] {
					if j.B > ra.B {
						n--
					}
				}
				if n > 0 {
					return a, last
				}
			}
		}
	}
	return nil, nil
}

// aftermath: the database itself was hit. Whatever was lost, the data of other repositories
// is intact, and after a restart the daemon works.
func (r *Run) aftermath(lf *libferry.Client) {
	w := r.w
	r.stats["aftermath"]++
	r.killDown = sec / 2
	if r.proc.Alive {
		w.Kill(r.proc)
	}
	for r.up() || !r.proc.Alive {
		w.Sleep(sec / 10)
	}
	r.waitUp()
	for t0 := w.Now(); ; {
		st, err := lf.GetStatus()
		if err == nil && len(st.CurrentJobs) == 0 {
			break
		}
		if w.Now()-t0 > 120*sec {
			r.fail([]string{"C15"}, "dbafter", "after a database fault and a restart the daemon does not become idle: %v", err)
		}
		w.Sleep(sec)
	}
	snap := r.othersIntact(lf, "a database fault in a job on another repository")
	if snap == nil {
		return
	}
	// New work succeeds.
	if err := lf.CreateRepo("zz-fresh"); err != nil {
		r.fail([]string{"C15"}, "dbafter", "after a database fault and a restart a request is refused: %v", err)
		return
	}
	var pi = -1
	for i := range r.p.Pkgs {
		if r.p.Pkgs[i].Bad == "" {
			pi = i
			break
		}
	}
	if pi >= 0 {
		s := &Step{Op: "import", Repo: "zz-fresh", Pkgs: []int{pi}}
		if err := lf.ImportPackages("zz-fresh", r.importPaths(s)); err != nil {
			r.fail([]string{"C15"}, "dbafter", "after a database fault and a restart a request is refused: %v", err)
			return
		}
	}
	for t0 := w.Now(); ; {
		st, err := lf.GetStatus()
		if err == nil && len(st.CurrentJobs) == 0 {
			ok := 0
			for _, j := range st.CompletedJobs {
				if strings.Contains(j.Description, "zz-fresh") {
					ok++
				}
			}
			if ok < 2 && pi >= 0 {
				why := ""
				for _, j := range st.FailedJobs {
					if strings.Contains(j.Description, "zz-fresh") {
						why = j.Error
					}
				}
				r.fail([]string{"C15"}, "dbafter", "after a database fault and a restart new jobs fail: %s", why)
				return
			}
			break
		}
		if w.Now()-t0 > 60*sec {
			r.fail([]string{"C15"}, "dbafter", "after a database fault and a restart new jobs do not finish: %v", err)
			return
		}
		w.Sleep(sec)
	}
	// Neither are the others harmed when the repositories that were worked on go away.
	for _, repo := range snap.repos {
		if !r.targeted(repo) {
			continue
		}
		r.noteRemoval(&Step{Op: "delete", Repo: repo})
		if err := lf.DeleteRepo(repo); err != nil {
			r.fail([]string{"C15"}, "dbafter", "after a database fault and a restart a request is refused: %v", err)
			return
		}
	}
	for t0 := w.Now(); ; {
		st, err := lf.GetStatus()
		if err == nil && len(st.CurrentJobs) == 0 {
			break
		}
		if w.Now()-t0 > 120*sec {
			r.fail([]string{"C15"}, "dbafter", "after a database fault and a restart deletions do not finish: %v", err)
			return
		}
		w.Sleep(sec)
	}
	if snap = r.othersIntact(lf, "the deletion of other repositories after a database fault"); snap == nil {
		return
	}
	for _, repo := range snap.repos {
		if r.targeted(repo) {
			r.fail([]string{"C15", "C09"}, "dbafter", "the repository %s, in which a job met a database fault, cannot be deleted", repo)
			return
		}
	}
	r.status = "aftermath"
}

// othersIntact checks the repositories no job of this phase worked on.
func (r *Run) othersIntact(lf *libferry.Client, what string) *snapshot {
	snap, err := r.takeSnapshot(lf)
	if err != nil {
		r.fail([]string{"C15"}, "dbafter", "after a database fault and a restart the daemon refuses to list: %v", err)
		return nil
	}
	have := map[string]bool{}
	for _, x := range snap.repos {
		have[x] = true
	}
	first := mismatch{}
	for _, c := range r.cands {
		m := r.othersOf(c, have, snap)
		if m == nil {
			return snap
		}
		if first.msg == "" {
			first = *m
		}
	}
	r.fail(append([]string{"C15"}, first.tags...), "dbafter", "%s %s", what, first.msg)
	return nil
}

func (r *Run) othersOf(c *cand, have map[string]bool, snap *snapshot) *mismatch {
	need := map[string]int{}
	for _, repo := range sortedKeys(c.m.repos) {
		if r.targeted(repo) {
			continue
		}
		if !have[repo] {
			return &mismatch{[]string{"C11"}, "", "lost the repository " + repo}
		}
		mr := c.m.repos[repo]
		for _, id := range sortedKeys(mr.ids()) {
			p := r.pkgOf(c.m, id)
			need[id]++
			if snap.pool[id] < need[id] {
				return &mismatch{[]string{"C11", "C05"}, "", fmt.Sprintf("left the pool item %s with reference count %d, but %d repositories hold it", id, snap.pool[id], need[id])}
			}
			if snap.poolF[id] != sha1hex(p.Bytes()) {
				return &mismatch{[]string{"C11", "C05", "C06"}, "", fmt.Sprintf("damaged the pool file of %s", id)}
			}
			if !c.miss[repo+"|"+id] && snap.tree[repo][p.URI()] != sha1hex(p.Bytes()) {
				return &mismatch{[]string{"C11", "C05", "C06"}, "", fmt.Sprintf("damaged %s in %s", id, repo)}
			}
		}
		for _, e := range r.checkIndex(repo, mr, snap.idx[repo]) {
			return &mismatch{append(e.tags, "C11"), "", "touched the " + e.msg}
		}
	}
	return nil
}

// finalStop ends the daemon gracefully and inspects the database it left.
func (r *Run) finalStop() {
	w := r.w
	if !r.up() || r.dbHit {
		return
	}
	p := r.proc
	r.expected, r.terming = true, true
	t0 := w.Now()
	w.Stats["fault.term"]++
	w.Signal(p.Pid, 15)
	for p.Alive {
		if w.Now()-t0 > 60*sec {
			r.fail([]string{"C18", "C17"}, "noexit", "the idle daemon has not ended 60 s after the signal: %s", strings.Join(w.TaskList(), "; "))
			return
		}
		w.Sleep(sec / 10)
	}
	if r.heldSock == nil && w.FS.Lookup(sock) != nil {
		r.fail([]string{"C18"}, "socketleft", "the socket is still there after a graceful stop")
		return
	}
	resetGlobals()
	ip := w.NewProc("inspector")
	ip.Data["harness"] = true
	var q rt.WaitQ
	done := false
	var best []mismatch
	ip.OnExit = append(ip.OnExit, func(*rt.Proc) { done = true; q.WakeAll() })
	w.Spawn(ip, "inspect", func() {
		best = r.inspect()
		w.Exit(ip, 0)
	})
	for !done {
		q.Wait("inspector")
	}
	if ip.Panic != "" {
		r.fail([]string{"C05", "?C13"}, "inspect", "the database left by a graceful stop cannot be read: %s", ip.Panic)
		return
	}
	if len(best) > 0 {
		r.fail(append(best[0].tags, "?C18"), "db-"+best[0].kind, "%s", best[0].msg)
	}
}

func (r *Run) inspect() []mismatch {
	m, err := core.NewManager(base)
	if err != nil {
		return []mismatch{{[]string{"C13"}, "open", "the database does not open: " + err.Error()}}
	}
	defer m.Close()
	repos, err := m.GetRepos()
	if err != nil {
		return []mismatch{{[]string{"C05"}, "repos", err.Error()}}
	}
	have := map[string]map[string]bool{}
	for _, x := range repos {
		have[x.ID] = map[string]bool{}
		names, err := m.GetPackageNames(x.ID)
		if err != nil {
			return []mismatch{{[]string{"C05"}, "names", err.Error()}}
		}
		for _, n := range names {
			ps, err := m.GetPackages(x.ID, n)
			if err != nil {
				return []mismatch{{[]string{"C05", "?C13"}, "packages", fmt.Sprintf("repository %s, package %s: %v", x.ID, n, err)}}
			}
			for _, q := range ps {
				have[x.ID][q.GetID()] = true
			}
		}
	}
	var best []mismatch
	for _, c := range r.cands {
		var mm []mismatch
		for _, repo := range sortedKeys(c.m.repos) {
			w, h := sortedKeys(c.m.repos[repo].ids()), sortedKeys(have[repo])
			if strings.Join(w, "\n") != strings.Join(h, "\n") {
				mm = append(mm, mismatch{[]string{"C05", "C09", "C10"}, "held", fmt.Sprintf("the database holds %v in %s instead of %v", h, repo, w)})
			}
		}
		if len(mm) == 0 {
			return nil
		}
		if best == nil || len(mm) < len(best) {
			best = mm
		}
	}
	return best
}

// before: the daemon must have accepted a first.
func before(a, b *opRec) bool {
	if a.s.Op == "upload" { // the manifests were in place one after the other
		return a.upEnd > 0 && b.upAt > 0 && a.upEnd < b.upAt
	}
	return a.done < b.sent
}
