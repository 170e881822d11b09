//go:build store

package main

import (
	"fmt"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"

	"verif.local/sim/rt"
)

func init() { specials["store"] = storeMain }

// sjob is one job given to the store. The times are positions in the order of all calls.
type sjob struct {
	desc                 string
	seq                  bool
	pushA, pushZ         int // begin and end of the push
	acked, dropped       bool
	life                 int // of the last claim
	entry                *jobs.JobEntry
	retA, retZ           int // retirement
	retAcked, retUnclear bool
	end                  int64
}

type sreset struct {
	a, z  int
	acked bool
}

type storeSim struct {
	*spec
	st       *jobs.JobStore
	all      []*sjob
	by       map[string]*sjob
	tick     int
	life     int
	flight   map[bool]int // claims under way
	resets   []*sreset
	stampN   int64
	unclearN int
	rush     bool
}

func storeMain(r *Run) {
	s := &storeSim{spec: newSpec(r, 0x5709e, "C01", "C02", "C03", "C04"), by: map[string]*sjob{}, flight: map[bool]int{}}
	s.what = "the use of the job store"
	phases := 1 + r.p.N%4
	for ph := 0; ph < phases; ph++ {
		s.arm(0.5, 0.25, []int{6, 30, 90}[s.rnd.Intn(3)])
		if !s.proc(s.session, 3000*sec) {
			return
		}
		s.w.MixCoarse(fmt.Sprintf("phase %d killed %v fired %d", ph, s.p.Killed, s.fired))
	}
	s.disarm()
	s.proc(func(p *rt.Proc) {
		if s.open() {
			s.drain()
			s.st.Close()
		}
	}, 3000*sec)
}

func (s *storeSim) now() int { s.tick++; return s.tick }

func (s *storeSim) open() bool {
	f, armed := s.fired, s.errN > 0
	s.life++
	s.flight = map[bool]int{}
	st, err := jobs.NewStore(base)
	if err != nil {
		if s.fired == f && !armed {
			s.r.fail([]string{"C01", "C15", "C13"}, "storeopen", "the job store cannot be opened any more: %v", err)
		}
		return false
	}
	s.st = st
	if s.fired != f {
		return true
	}
	return s.verify()
}

// verify compares queue and history with what was done while nothing else happens.
func (s *storeSim) verify() bool {
	f := s.fired
	act, err := s.st.ActiveJobs()
	done, err2 := s.st.CompletedJobs()
	if s.fired != f {
		return true
	}
	if err != nil || err2 != nil {
		s.r.fail([]string{"C04"}, "status", "the listing fails: %v %v", err, err2)
		return false
	}
	s.r.stats["checks"]++
	queued := map[string]int{}
	for i, j := range act {
		if s.by[j.Description] == nil || queued[j.Description] > 0 {
			s.r.fail([]string{"C03", "C04"}, "ghost", "the queue lists %q twice or although it was never accepted", j.Description)
			return false
		}
		queued[j.Description] = i + 1
		if !j.Timing.Begin.IsZero() {
			s.r.fail([]string{"C14", "C13", "C01"}, "claimed", "job %q still counts as running after the restart", j.Description)
			return false
		}
	}
	past, ok := s.history(done, true)
	if !ok {
		return false
	}
	for _, j := range s.all {
		q := queued[j.desc] > 0
		h := past[j]
		switch {
		case j.retAcked && q:
			s.r.fail([]string{"C03", "C01"}, "again", "job %q was retired and is queued again", j.desc)
			return false
		case q && h:
			s.r.fail([]string{"C03", "C01", "C04"}, "both", "job %q is queued and in the history", j.desc)
			return false
		case j.acked && !j.retAcked && !j.retUnclear && !q:
			s.r.fail([]string{"C01"}, "lostjob", "job %q was accepted and not finished, but is not queued", j.desc)
			return false
		case j.retUnclear && !q && !h && !s.resetAfter(j.retA, false) && s.after(j) < 100:
			s.r.fail([]string{"C01", "C04"}, "lostjob", "job %q is neither queued nor in the history", j.desc)
			return false
		}
		// settled now
		if j.retUnclear {
			j.retUnclear, j.retAcked = false, !q
		}
		if !j.acked && !j.dropped {
			if q {
				j.acked = true
				j.pushZ = s.now()
			} else {
				j.dropped = !j.retAcked
			}
		}
		j.entry = nil
	}
	for _, a := range s.all {
		for _, b := range s.all {
			if a.seq && b.seq && queued[a.desc] > 0 && queued[b.desc] > 0 && a.pushZ < b.pushA && queued[a.desc] > queued[b.desc] {
				s.r.fail([]string{"C02", "C04"}, "order", "job %q was accepted before %q but is queued behind it", a.desc, b.desc)
				return false
			}
		}
	}
	return true
}

// after counts the retirements that may have come after that of j.
func (s *storeSim) after(j *sjob) int {
	n := 0
	for _, o := range s.all {
		if o != j && (o.retAcked || o.retUnclear) && (o.retZ == 0 || o.retZ > j.retA) {
			n++
		}
	}
	return n
}

func (s *storeSim) surelyAfter(j *sjob) int {
	n := 0
	for _, o := range s.all {
		if o != j && o.retAcked && o.retA > j.retZ {
			n++
		}
	}
	return n
}

// resetAfter: a reset that may have come after t, or (sure) one that certainly did.
func (s *storeSim) resetAfter(t int, sure bool) bool {
	for _, x := range s.resets {
		if sure && x.acked && x.a > t || !sure && (x.z == 0 || x.z > t) {
			return true
		}
	}
	return false
}

func (s *storeSim) history(done []*libferry.Job, complete bool) (map[*sjob]bool, bool) {
	past := map[*sjob]bool{}
	if len(done) > 100 {
		s.r.fail([]string{"C04"}, "history", "the success history holds %d jobs", len(done))
		return nil, false
	}
	for _, d := range done {
		var hit *sjob
		for _, j := range s.all {
			if j.end != 0 && j.end == d.Timing.End.UnixNano() {
				hit = j
			}
		}
		if hit == nil || past[hit] || d.Failed || d.Error != "" {
			s.r.fail([]string{"C04", "C03"}, "ghost", "the success history lists a job twice or one that was never retired (end %v, failed %v)", d.Timing.End, d.Failed)
			return nil, false
		}
		past[hit] = true
		if hit.retZ > 0 && hit.retAcked && s.resetAfter(hit.retZ, true) {
			s.r.fail([]string{"C04"}, "reset", "the success history lists %q, which was retired before a reset", hit.desc)
			return nil, false
		}
		if hit.retZ > 0 && hit.retAcked && s.surelyAfter(hit) >= 100 {
			s.r.fail([]string{"C04"}, "history", "the success history lists %q although 100 jobs ended after it", hit.desc)
			return nil, false
		}
	}
	if complete {
		for _, j := range s.all {
			if j.retAcked && !past[j] && !s.resetAfter(j.retA, false) && s.after(j) < 100 {
				s.r.fail([]string{"C04", "C01"}, "lostrecord", "the success history of %d jobs does not list %q, after which at most %d jobs ended", len(done), j.desc, s.after(j))
				return nil, false
			}
		}
	}
	return past, true
}

func (s *storeSim) session(p *rt.Proc) {
	if !s.open() {
		return
	}
	n := 2 + s.rnd.Intn(12)
	if s.rnd.P(0.12) {
		n = 60 + s.rnd.Intn(50)
	}
	if s.rnd.P(0.2) {
		s.reset()
	}
	if s.life == 1 && s.rnd.P(0.05) { // a long backlog
		s.rush = true
		s.pusher(257+s.rnd.Intn(150), rt.NewRand(s.rnd.U64()))
		s.rush = false
	}
	g := &group{s: s.spec}
	stop := 0
	pushers := 1 + s.rnd.Intn(3)
	for i := 0; i < pushers; i++ {
		stop++
		g.goRun(fmt.Sprintf("client %d", i), func() {
			s.pusher(1+n/pushers, rt.NewRand(s.rnd.U64()))
			stop--
		})
	}
	for i := 0; i < 1+s.rnd.Intn(4); i++ {
		seq := i == 0
		g.goRun(fmt.Sprintf("worker %d", i), func() { s.worker(seq, func() bool { return stop == 0 }, rt.NewRand(s.rnd.U64())) })
	}
	if s.rnd.P(0.3) {
		g.goRun("second worker", func() { s.worker(true, func() bool { return stop == 0 }, rt.NewRand(s.rnd.U64())) })
	}
	g.goRun("listing", func() { s.lister(n, rt.NewRand(s.rnd.U64())) })
	if s.rnd.P(0.15) {
		g.goRun("reset", func() {
			s.w.Sleep(int64(s.rnd.Intn(400)) * 1000000)
			s.reset()
		})
	}
	g.wait()
	if s.rnd.P(0.7) {
		s.st.Close()
	}
}

func (s *storeSim) reset() {
	x := &sreset{a: s.now()}
	s.resets = append(s.resets, x)
	f := s.fired
	err := s.st.ResetCompleted()
	if err != nil && f == 0 && s.fired == 0 {
		s.r.fail([]string{"C04"}, "reset", "the reset fails: %v", err)
		return
	}
	x.z = s.now()
	if x.acked = err == nil; !x.acked {
		x.z = 0 // its removal of the pointer may show later
	}
}

func (s *storeSim) pusher(n int, rnd *rt.Rand) {
	bad := 0
	for i := 0; i < n && bad < 3; i++ {
		j := &sjob{seq: rnd.P(0.7) || s.rush}
		id := fmt.Sprintf("r%d", len(s.all))
		j.desc = fmt.Sprintf("Index repository '%s'", id)
		s.all = append(s.all, j)
		s.by[j.desc] = j
		e := jobs.NewIndexRepoJob(id)
		if rnd.P(0.5) {
			e = jobs.NewCreateRepoJob(id)
			delete(s.by, j.desc)
			j.desc = fmt.Sprintf("Create repository '%s'", id)
			s.by[j.desc] = j
		}
		if rnd.P(0.1) {
			e.Claimed = true // must not matter
		}
		j.pushA = s.now()
		var err error
		if j.seq {
			err = s.st.PushSequentialJob(e)
		} else {
			err = s.st.PushAsyncJob(e)
		}
		if err == nil {
			j.pushZ = s.now()
			j.acked = true
		} else {
			bad++
			if s.fired == 0 {
				s.r.fail([]string{"C01", "C15"}, "pushfail", "a job is refused without any fault: %v", err)
				return
			}
		}
		s.r.stats["pushes"]++
		if !s.rush && rnd.P(0.5) {
			s.w.Sleep(int64(rnd.Intn(60)) * 1000000)
		}
	}
}

// waiting counts jobs that could have been claimed all the time since t.
func (s *storeSim) waiting(seq bool, t int) (n int) {
	for _, j := range s.all {
		if j.seq == seq && j.acked && j.pushZ < t && j.life != s.life && !j.retAcked && !j.retUnclear {
			n++
		}
	}
	return
}

func (s *storeSim) claim(seq bool) (*jobs.JobEntry, error) {
	a := s.now()
	s.flight[seq]++
	f := s.fired
	var e *jobs.JobEntry
	var err error
	if seq {
		e, err = s.st.ClaimSequentialJob()
	} else {
		e, err = s.st.ClaimAsyncJob()
	}
	// counted until the outcome is noted, since what follows may be interrupted
	defer func() { s.flight[seq]-- }()
	if err == jobs.ErrEmptyQueue {
		if n := s.waiting(seq, a); n > s.flight[seq]-1 && s.fired == 0 {
			s.r.fail([]string{"C01", "C17"}, "notfound", "the queue counts as empty although %d accepted jobs wait", n)
		}
		return nil, err
	}
	if err != nil {
		if s.fired == 0 {
			s.r.fail([]string{"C01", "C17"}, "claimfail", "claiming fails without any fault: %v", err)
		}
		return nil, err
	}
	d := ""
	if h, err := jobs.NewJobHandler(e); err == nil {
		d = h.Describe()
	}
	j := s.by[d]
	switch {
	case j == nil || j.seq != seq:
		s.r.fail([]string{"C03", "C01"}, "ghost", "a worker got %q, which was not accepted for its queue", d)
		return nil, err
	case j.life == s.life:
		s.r.fail([]string{"C03"}, "twice", "job %q was handed out twice", d)
		return nil, err
	case j.retAcked:
		s.r.fail([]string{"C03", "C01"}, "again", "job %q was handed out after it had been retired", d)
		return nil, err
	}
	if s.fired == f && seq {
		n := 0
		var first *sjob
		for _, o := range s.all {
			if o.seq && o != j && o.acked && o.pushZ < j.pushA && o.life != s.life && !o.retAcked && !o.retUnclear {
				n++
				first = o
			}
		}
		if n > s.flight[true]-1 && s.fired == 0 {
			s.r.fail([]string{"C02"}, "order", "job %q was handed out before %q, which had been accepted earlier", d, first.desc)
			return nil, err
		}
	}
	if !e.Claimed || e.Timing.Begin.IsZero() || e.Timing.Queued.IsZero() || e.Timing.Begin.Before(e.Timing.Queued) {
		s.r.fail([]string{"C04"}, "times", "job %q was handed out with claimed=%v, queued %v, begin %v", d, e.Claimed, e.Timing.Queued, e.Timing.Begin)
		return nil, err
	}
	j.life = s.life
	j.entry = e
	s.r.stats["claims"]++
	return e, nil
}

func (s *storeSim) retire(seq bool, e *jobs.JobEntry) error {
	var j *sjob
	for _, o := range s.all {
		if o.entry == e {
			j = o
		}
	}
	s.stampN++
	e.Timing.End = time.Unix(0, rt.W.Now()).UTC().Add(time.Hour * 24 * 365 * 50).Add(time.Duration(s.stampN))
	j.end = e.Timing.End.UnixNano()
	j.retUnclear = true
	j.retA = s.now()
	var err error
	if seq {
		err = s.st.RetireSequentialJob(e)
	} else {
		err = s.st.RetireAsyncJob(e)
	}
	if err == nil {
		j.retZ = s.now()
		j.retUnclear, j.retAcked = false, true
	} else if s.fired == 0 {
		s.r.fail([]string{"C01", "C03"}, "retirefail", "a job cannot be retired without any fault: %v", err)
	}
	s.r.stats["retires"]++
	return err
}

func (s *storeSim) worker(seq bool, over func() bool, rnd *rt.Rand) {
	bad := 0
	for s.r.viol == nil && bad < 3 {
		last := over()
		e, err := s.claim(seq)
		if err == jobs.ErrEmptyQueue {
			if last || rnd.P(0.02) {
				return
			}
			s.w.Sleep(int64(1+rnd.Intn(80)) * 1000000)
			continue
		}
		if err != nil || e == nil {
			bad++
			continue
		}
		if rnd.P(0.4) {
			s.w.Sleep(int64(rnd.Intn(50)) * 1000000)
		}
		if rnd.P(0.02) { // it takes ages
			s.w.WallOff += int64(1+rnd.Intn(100)) * 1800e9
			s.w.Sleep(int64(100+rnd.Intn(200)) * 1000000)
		}
		if rnd.P(0.06) {
			continue // never finished in this life
		}
		if s.retire(seq, e) != nil {
			bad++
		}
	}
}

// lister looks at the queue and the history while everything goes on.
func (s *storeSim) lister(n int, rnd *rt.Rand) {
	for i := 0; i < 2+n/4 && s.r.viol == nil; i++ {
		f := s.fired
		a := s.now()
		var must []*sjob
		for _, j := range s.all {
			if j.acked && !j.retAcked && !j.retUnclear {
				must = append(must, j)
			}
		}
		act, err := s.st.ActiveJobs()
		if s.fired != f {
			continue
		}
		if err != nil {
			s.r.fail([]string{"C04"}, "status", "the listing fails: %v", err)
			return
		}
		have := map[string]bool{}
		for _, x := range act {
			j := s.by[x.Description]
			if j == nil || have[x.Description] || j.retAcked && j.retZ < a {
				s.r.fail([]string{"C04", "C03"}, "ghost", "the queue lists %q twice, or although it is finished or was never accepted", x.Description)
				return
			}
			have[x.Description] = true
		}
		for _, j := range must {
			if !have[j.desc] && !j.retAcked && !j.retUnclear {
				s.r.fail([]string{"C01", "C04"}, "unlisted", "job %q was accepted and is not finished, but is not listed", j.desc)
				return
			}
		}
		f = s.fired
		done, err := s.st.CompletedJobs()
		if s.fired == f {
			if err != nil {
				s.r.fail([]string{"C04"}, "status", "the history fails: %v", err)
				return
			}
			s.history(done, false)
		}
		s.r.stats["listings"]++
		s.w.Sleep(int64(rnd.Intn(100)) * 1000000)
	}
}

// drain finishes everything.
func (s *storeSim) drain() {
	for _, seq := range []bool{true, false} {
		for s.r.viol == nil {
			e, err := s.claim(seq)
			if err != nil || e == nil {
				break
			}
			if s.retire(seq, e) != nil {
				break
			}
		}
	}
	if s.r.viol != nil {
		return
	}
	for _, j := range s.all {
		if j.acked && !j.retAcked {
			s.r.fail([]string{"C01"}, "lostjob", "job %q was accepted but never handed out", j.desc)
			return
		}
	}
	s.verify()
}
