package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	stdos "os"
	stdexec "os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/rt"
)

// A mix says which scenarios a property's check explores, and how often each.
type mix struct {
	profile string
	weight  int
	focus   map[string]int
}

var mixes = map[string][]mix{
	"C01": {{"crash", 4, nil}, {"term", 2, nil}, {"multi", 3, nil}, {"io", 2, nil}, {"ring", 1, nil}, {"ops", 1, nil}, {"store", 3, nil}},
	"C02": {{"multi", 5, nil}, {"crash", 2, nil}, {"clock", 1, nil}, {"ops", 1, nil}, {"term", 1, nil}, {"store", 4, nil}},
	"C03": {{"multi", 5, map[string]int{"delta": 4}}, {"ring", 1, nil}, {"term", 2, nil}, {"ops", 1, nil}, {"store", 5, nil}},
	"C04": {{"ring", 4, nil}, {"multi", 4, nil}, {"crash", 2, nil}, {"term", 1, nil}, {"clock", 1, nil}, {"mal", 1, nil}, {"store", 3, nil}},
	"C05": {{"ops", 6, nil}, {"crash", 4, nil}, {"io", 2, nil}, {"multi", 1, nil}, {"term", 1, nil}, {"delta", 1, nil}},
	"C06": {{"ops", 3, nil}, {"delta", 1, nil}, {"crash", 4, nil}, {"io", 4, nil}, {"mal", 1, nil}, {"multi", 1, nil}},
	"C07": {{"ops", 7, nil}, {"delta", 1, nil}, {"io", 2, nil}, {"crash", 1, nil}, {"multi", 1, nil}},
	"C08": {{"crash", 5, nil}, {"io", 5, nil}, {"ops", 1, nil}},
	"C09": {{"ops", 7, map[string]int{"create": 5, "import": 10, "clone": 8, "pull": 8, "copy": 8, "rmsrc": 3, "trim": 2}}, {"multi", 1, nil}, {"crash", 1, nil}},
	"C10": {{"ops", 8, map[string]int{"rmsrc": 9, "trim": 8, "trimobs": 6, "delete": 3}}, {"multi", 1, nil}, {"crash", 1, nil}},
	"C11": {{"ops", 5, map[string]int{"delete": 3}}, {"crash", 3, nil}, {"io", 2, nil}, {"mal", 1, nil}},
	"C12": {{"mal", 6, map[string]int{"upload": 12}}, {"ops", 4, map[string]int{"upload": 16}}, {"crash", 1, map[string]int{"upload": 14}}, {"multi", 1, nil}},
	"C13": {{"crash", 10, nil}, {"term", 1, nil}, {"multi", 1, nil}},
	"C14": {{"crash", 10, nil}},
	"C15": {{"io", 10, nil}},
	"C16": {{"mal", 10, nil}},
	"C17": {{"multi", 3, nil}, {"clock", 3, nil}, {"io", 2, nil}, {"mal", 2, nil}, {"crash", 1, nil}, {"term", 2, nil}, {"store", 1, nil}, {"lock", 1, nil}, {"cdn", 1, nil}},
	"C18": {{"term", 10, nil}, {"lock", 1, nil}},
	"C19": {{"lock", 10, nil}},
	"C20": {{"libdb", 10, nil}},
	"C21": {{"delta", 10, nil}},
	"C22": {{"ctl", 10, nil}},
	"C23": {{"cdn", 10, nil}},
	"C24": {{"lock", 6, nil}, {"ops", 1, nil}, {"term", 1, nil}},
}

// warmUp makes the type numbers of the gob encoder the same in every process.
func warmUp() {
	for _, p := range []*Plan{generate("ops", 7, nil), {Profile: "delta", Seed: 7, PreemptN: 200}} {
		if p.Profile == "ops" || specials[p.Profile] != nil {
			execute(p, runOpts{})
		}
	}
}

func makePlan(prop, profile string, seed uint64) *Plan {
	var f map[string]int
	for _, m := range mixes[prop] {
		if m.profile == profile && m.focus != nil {
			f = merge(defaultFocus, m.focus)
		}
	}
	if specials[profile] != nil {
		return specialPlan(profile, seed)
	}
	return generate(profile, seed, f)
}

// planFor is the i-th scenario of a check.
func planFor(prop string, base, i uint64) *Plan {
	ms := mixes[prop]
	tot := 0
	var use []mix
	for _, m := range ms {
		if isSpecial(m.profile) && specials[m.profile] == nil {
			continue
		}
		use = append(use, m)
		tot += m.weight
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "mix %s %d %d", prop, base, i)
	r := rt.NewRand(h.Sum64())
	x := r.Intn(tot)
	for _, m := range use {
		if x < m.weight {
			return makePlan(prop, m.profile, base*10000000+i+1)
		}
		x -= m.weight
	}
	panic("mix")
}

// contextOf removes the disturbances a property is about, to see whether they matter.
func contextOf(p *Plan, id string) *Plan {
	q := p.clone()
	for i := range q.Phases {
		ph := &q.Phases[i]
		var fs []Fault
		for _, f := range ph.Faults {
			drop := false
			switch id {
			case "C13", "C14":
				drop = f.Kind == "kill" || f.Kind == "killtime"
			case "C15":
				drop = f.Kind == "eio" || f.Kind == "enospc" || f.Kind == "short" || f.Kind == "stall" || f.Kind == "tool"
			case "C18":
				drop = f.Kind == "term"
			case "C17":
				drop = f.Kind == "clock" || f.Kind == "watch"
			case "C23":
				drop = f.Kind == "cdn"
			}
			if !drop {
				fs = append(fs, f)
			}
		}
		ph.Faults = fs
		if (id == "C13" || id == "C14") && ph.Restart == "kill" || id == "C18" && ph.Restart == "term" {
			ph.Restart = ""
		}
		if (id == "C02" || id == "C03") && len(ph.Clients) > 1 {
			var all []Step
			for _, c := range ph.Clients {
				all = append(all, c...)
			}
			ph.Clients = [][]Step{all}
		}
		if id == "C16" {
			for ci := range ph.Clients {
				var c []Step
				for k := range ph.Clients[ci] {
					if !stepMalformed(q, &ph.Clients[ci][k]) {
						c = append(c, ph.Clients[ci][k])
					}
				}
				ph.Clients[ci] = c
			}
			var pre []Step
			for k := range ph.Pre {
				if !badXML(ph.Pre[k].Body) {
					pre = append(pre, ph.Pre[k])
				}
			}
			ph.Pre = pre
		}
	}
	if id == "C18" {
		q.TermEnd = false
	}
	return q
}

// concerns decides whether a violation is one of property id.
func concerns(p *Plan, v *Viol, id string) bool {
	if v == nil {
		return false
	}
	if v.direct(id) {
		return true
	}
	if !v.has(id) {
		return false
	}
	q := contextOf(p, id)
	for k := uint64(0); k < 3; k++ {
		q.Seed = p.Seed + k*7919
		if r := execute(q, runOpts{}); r.Viol != nil && r.Viol.Kind == v.Kind {
			return false
		}
	}
	return true
}

// Replay is what is written for a violation.
type Replay struct {
	Property  string        `json:"property"`
	Kind      string        `json:"kind"`
	Msg       string        `json:"msg"`
	Tags      []string      `json:"tags"`
	Seed      uint64        `json:"found_with_seed"`
	Original  int           `json:"steps_before_minimising"`
	Steps     int           `json:"steps"`
	Plan      *Plan         `json:"plan"`
	Decisions []rt.Decision `json:"decisions"`
	Hash      string        `json:"hash"`
}

func replayFile(p string, verbose bool) int {
	b, err := stdos.ReadFile(p)
	if err != nil {
		fmt.Fprintln(stdos.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(stdos.Stderr, err)
		return 2
	}
	res := execute(rp.Plan, runOpts{trace: verbose, replay: true, log: rp.Decisions})
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	if res.Viol == nil {
		fmt.Printf("not reproduced: %s %s (hash %x, expected %s)\n", res.Reason, res.Fatal, res.Hash, rp.Hash)
		return 0
	}
	same := fmt.Sprintf("%x", res.Hash) == rp.Hash && res.Viol.Kind == rp.Kind
	fmt.Printf("VIOLATION property=%s replay=%s\n%v %s: %s\nexact reproduction: %v\n", rp.Property, p, res.Viol.Tags, res.Viol.Kind, res.Viol.Msg, same)
	return 1
}

// minimise shrinks a failing plan and its schedule.
func minimise(p *Plan, id, kind string, budget time.Duration) (*Plan, []rt.Decision, *Result) {
	t0 := time.Now()
	left := func() bool { return time.Since(t0) < budget }
	good := func(res *Result) bool {
		return res.Fatal == "" && res.Viol != nil && res.Viol.Kind == kind && res.Viol.has(id)
	}
	cur := p
	try := func(q *Plan) bool {
		for k := uint64(0); k < 3 && left(); k++ {
			q.untangle()
			q.Seed = cur.Seed + k*104729
			if good(execute(q, runOpts{})) {
				cur = q
				return true
			}
		}
		return false
	}
	for changed := true; changed && left(); {
		changed = false
		for i := len(cur.Phases) - 1; i >= 0 && left(); i-- {
			q := cur.clone()
			q.Phases = append(q.Phases[:i], q.Phases[i+1:]...)
			if len(q.Phases) > 0 && try(q) {
				changed = true
			}
		}
		for i := len(cur.Phases) - 1; i >= 0 && left(); i-- {
			for j := len(cur.Phases[i].Faults) - 1; j >= 0 && left(); j-- {
				q := cur.clone()
				f := &q.Phases[i].Faults
				*f = append((*f)[:j], (*f)[j+1:]...)
				changed = try(q) || changed
			}
			if cur.Phases[i].Restart != "" {
				q := cur.clone()
				q.Phases[i].Restart = ""
				changed = try(q) || changed
			}
			for j := len(cur.Phases[i].Pre) - 1; j >= 0 && left(); j-- {
				q := cur.clone()
				f := &q.Phases[i].Pre
				*f = append((*f)[:j], (*f)[j+1:]...)
				changed = try(q) || changed
			}
			for c := len(cur.Phases[i].Clients) - 1; c >= 0 && left(); c-- {
				if len(cur.Phases[i].Clients) > 1 {
					q := cur.clone()
					f := &q.Phases[i].Clients
					*f = append((*f)[:c], (*f)[c+1:]...)
					if try(q) {
						changed = true
						continue
					}
				}
				// steps: halves, then single ones
				for n := len(cur.Phases[i].Clients[c]) / 2; n >= 1 && left(); n /= 2 {
					for j := len(cur.Phases[i].Clients[c]) - n; j >= 0 && left(); j -= n {
						q := cur.clone()
						f := &q.Phases[i].Clients[c]
						if j+n > len(*f) {
							continue
						}
						*f = append((*f)[:j], (*f)[j+n:]...)
						changed = try(q) || changed
					}
				}
				for j := range cur.Phases[i].Clients[c] {
					for k := len(cur.Phases[i].Clients[c][j].Pkgs) - 1; k >= 0 && left(); k-- {
						if len(cur.Phases[i].Clients[c][j].Pkgs) < 2 {
							break
						}
						q := cur.clone()
						f := &q.Phases[i].Clients[c][j].Pkgs
						*f = append((*f)[:k], (*f)[k+1:]...)
						changed = try(q) || changed
					}
				}
			}
		}
		if cur.N > 1 && left() {
			q := cur.clone()
			q.N = cur.N / 2
			changed = try(q) || changed
		}
	}
	res := execute(cur, runOpts{})
	if !good(res) {
		return nil, nil, nil
	}
	log := res.Log
	// A schedule without preemptions, if one will do.
	for chunk := len(log); chunk >= 1 && left(); {
		shrunk := false
		for at := 0; at < len(log) && left(); {
			end := min(at+chunk, len(log))
			cand := append(append([]rt.Decision{}, log[:at]...), log[end:]...)
			r := execute(cur, runOpts{replay: true, log: cand})
			if good(r) && len(r.Log) < len(log) {
				log, shrunk = r.Log, true
			} else {
				at = end
			}
		}
		if chunk == 1 && !shrunk {
			break
		}
		if !shrunk || chunk > len(log) {
			chunk = (chunk + 1) / 2
			if chunk == 1 && len(log) > 400 {
				break
			}
		}
	}
	fin := execute(cur, runOpts{replay: true, log: log})
	if !good(fin) {
		return nil, nil, nil
	}
	again := execute(cur, runOpts{replay: true, log: fin.Log})
	if !good(again) || again.Hash != fin.Hash {
		fin = execute(cur, runOpts{replay: true, log: log})
		return cur, log, fin
	}
	return cur, fin.Log, fin
}

// --- worker ---

type workerMsg struct {
	T       string         `json:"t"` // viol, hang, end, fatal, nondet
	I       uint64         `json:"i"`
	Profile string         `json:"profile,omitempty"`
	Viol    *Viol          `json:"viol,omitempty"`
	Msg     string         `json:"msg,omitempty"`
	Runs    int            `json:"runs,omitempty"`
	Useful  int            `json:"useful,omitempty"`
	Steps   uint64         `json:"steps,omitempty"`
	Yields  uint64         `json:"yields,omitempty"`
	Sim     int64          `json:"sim,omitempty"`
	Stats   map[string]int `json:"stats,omitempty"`
	Prof    map[string]int `json:"prof,omitempty"`
	Status  map[string]int `json:"status,omitempty"`
	KF      map[string]int `json:"kf,omitempty"`
	Hashes  []uint64       `json:"hashes,omitempty"`
	Coarse  []uint64       `json:"coarse,omitempty"`
	First   string         `json:"first,omitempty"`
	Other   map[string]int `json:"other,omitempty"`
}

const hangAfter = 120 * time.Second

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	start := fs.Uint64("start", 0, "")
	stride := fs.Uint64("stride", 1, "")
	budget := fs.Float64("budget", 10, "seconds")
	kf := fs.String("kf", "", "")
	fs.Parse(args)
	loadKF(*kf)
	out := bufio.NewWriter(stdos.Stdout)
	var mu sync.Mutex
	emit := func(m *workerMsg) {
		mu.Lock()
		b, _ := json.Marshal(m)
		out.Write(append(b, '\n'))
		out.Flush()
		mu.Unlock()
	}
	var cur struct {
		sync.Mutex
		at time.Time
		i  uint64
		pr string
	}
	cur.at = time.Now()
	go func() {
		for {
			time.Sleep(time.Second)
			cur.Lock()
			if time.Since(cur.at) > hangAfter {
				emit(&workerMsg{T: "hang", I: cur.i, Profile: cur.pr})
				stdos.Exit(3)
			}
			cur.Unlock()
		}
	}()
	sum := &workerMsg{T: "end", Stats: map[string]int{}, Prof: map[string]int{}, Status: map[string]int{}, KF: map[string]int{}, Other: map[string]int{}}
	hs, cs := map[uint64]bool{}, map[uint64]bool{}
	t0 := time.Now()
	run := func(i uint64) (*Plan, *Result) {
		p := planFor(*prop, *base, i)
		cur.Lock()
		cur.at, cur.i, cur.pr = time.Now(), i, p.Profile
		cur.Unlock()
		return p, execute(p, runOpts{})
	}
	first := ""
	for k := 0; k < 3; k++ { // the same three scenarios in every worker
		_, r := run(uint64(k))
		first += fmt.Sprintf("%x/%x ", r.Hash, r.Steps)
	}
	sum.First = first
	var firstI uint64
	var firstH uint64
	for i := *start; time.Since(t0).Seconds() < *budget; i += *stride {
		p, r := run(i)
		if sum.Runs == 0 {
			firstI, firstH = i, r.Hash
		}
		sum.Runs++
		sum.Steps += r.Steps
		sum.Yields += r.Yields
		sum.Sim += r.Sim
		sum.Prof[p.Profile]++
		if r.Status != "" {
			sum.Status[strings.SplitN(r.Status, ":", 2)[0]]++
		}
		faults := 0
		for k, v := range r.Stats {
			sum.Stats[k] += v
			if strings.HasPrefix(k, "fault.") {
				faults += v
			}
		}
		for k := range r.KF {
			sum.KF[k]++
		}
		useful := r.Stats["jobs"] > 0 || r.Stats["checks"] > 0
		switch *prop {
		case "C13", "C14", "C15", "C18":
			useful = useful && faults > 0
		}
		if useful {
			sum.Useful++
			if len(hs) < 200000 {
				hs[r.Hash], cs[r.Coarse] = true, true
			}
		}
		if r.Fatal != "" {
			emit(&workerMsg{T: "fatal", I: i, Profile: p.Profile, Msg: r.Fatal})
			break
		}
		if r.Viol != nil {
			if concerns(p, r.Viol, *prop) {
				emit(&workerMsg{T: "viol", I: i, Profile: p.Profile, Viol: r.Viol})
				break
			}
			sum.Other[r.Viol.Kind+" ["+strings.Join(r.Viol.Tags, " ")+"] seed "+strconv.FormatUint(p.Seed, 10)]++
		}
	}
	if sum.Runs > 0 && firstH != 0 {
		if _, r := run(firstI); r.Hash != firstH {
			emit(&workerMsg{T: "nondet", I: firstI, Msg: fmt.Sprintf("%x then %x", firstH, r.Hash)})
		}
	}
	for h := range hs {
		sum.Hashes = append(sum.Hashes, h)
	}
	for h := range cs {
		sum.Coarse = append(sum.Coarse, h)
	}
	emit(sum)
	stdos.Exit(0)
}

// --- check ---

func checkMain(args []string) int {
	if len(args) < 1 {
		usage()
	}
	id := args[0]
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "", "")
	seed := fs.Uint64("seed", 0, "")
	budget := fs.Float64("budget", 0, "seconds of exploration")
	nw := fs.Int("workers", 0, "")
	root := fs.String("root", "/verif", "")
	note := fs.String("build", "", "")
	fs.Parse(args[1:])
	if *tier == "" {
		*tier = stdos.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seed == 0 {
		*seed, _ = strconv.ParseUint(stdos.Getenv("VERIF_SEED"), 10, 64)
	}
	if *seed == 0 {
		*seed = 1
	}
	if *budget == 0 {
		*budget = 45
		if *tier == "thorough" {
			*budget = 660
		}
	}
	if *nw == 0 {
		*nw = min(max(runtime.NumCPU(), 2), 16)
	}
	if mixes[id] == nil {
		fmt.Fprintln(stdos.Stderr, "no such check:", id)
		return 2
	}
	ok := false
	for _, m := range mixes[id] {
		ok = ok || !isSpecial(m.profile) || specials[m.profile] != nil
	}
	if !ok {
		fmt.Fprintln(stdos.Stderr, "the scenarios of this check do not build against the current tree:", *note)
		return 2
	}
	kf := filepath.Join(*root, "known-findings.json")
	loadKF(kf)
	fmt.Printf("%s %s seed %d: %d workers, %.0f s\n", id, *tier, *seed, *nw, *budget)
	t0 := time.Now()
	self, _ := stdos.Executable()
	type wres struct {
		msgs []*workerMsg
		err  string
	}
	msgs := make(chan *workerMsg, 64)
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var procs []*stdexec.Cmd
	stopped := false
	for k := 0; k < *nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			start := uint64(k)
			rest := *budget
			for rest > 1 {
				tw := time.Now()
				c := stdexec.Command(self, "worker", "-prop", id, "-base", fmt.Sprint(*seed), "-start", fmt.Sprint(start), "-stride", fmt.Sprint(*nw), "-budget", fmt.Sprint(rest), "-kf", kf)
				c.Env = append(stdos.Environ(), "GOMAXPROCS=2", "GOGC=200", "GOMEMLIMIT=2000MiB")
				var eb bytes.Buffer
				c.Stderr = &eb
				pr, _ := c.StdoutPipe()
				pmu.Lock()
				if stopped {
					pmu.Unlock()
					return
				}
				if err := c.Start(); err != nil {
					pmu.Unlock()
					msgs <- &workerMsg{T: "crash", Msg: err.Error()}
					return
				}
				procs = append(procs, c)
				pmu.Unlock()
				br := bufio.NewReaderSize(pr, 1<<20)
				ended, hung := false, false
				for {
					l, err := br.ReadBytes('\n')
					if len(l) > 0 {
						m := &workerMsg{}
						if json.Unmarshal(l, m) == nil {
							ended = ended || m.T == "end"
							if m.T == "hang" {
								hung = true
								start = m.I + uint64(*nw)
							}
							msgs <- m
						}
					}
					if err != nil {
						break
					}
				}
				io.Copy(io.Discard, pr)
				c.Wait()
				if ended {
					return
				}
				if !hung {
					pmu.Lock()
					st := stopped
					pmu.Unlock()
					if !st {
						e := eb.String()
						if len(e) > 2000 {
							e = e[:2000]
						}
						msgs <- &workerMsg{T: "crash", Msg: "worker ended early: " + c.ProcessState.String() + " " + e}
					}
					return
				}
				rest -= time.Since(tw).Seconds()
			}
		}(k)
	}
	go func() { wg.Wait(); close(msgs) }()
	tot := &workerMsg{Stats: map[string]int{}, Prof: map[string]int{}, Status: map[string]int{}, KF: map[string]int{}, Other: map[string]int{}}
	hs, cs := map[uint64]bool{}, map[uint64]bool{}
	var viol *workerMsg
	var trouble []string
	firsts := map[string]int{}
	for m := range msgs {
		switch m.T {
		case "viol":
			if viol == nil {
				viol = m
				pmu.Lock()
				stopped = true
				for _, c := range procs {
					c.Process.Kill()
				}
				pmu.Unlock()
			}
		case "hang":
			trouble = append(trouble, fmt.Sprintf("scenario %d (%s) did not end within %v of real time", m.I, m.Profile, hangAfter))
		case "fatal", "nondet", "crash":
			trouble = append(trouble, fmt.Sprintf("%s: scenario %d (%s): %s", m.T, m.I, m.Profile, m.Msg))
		case "end":
			tot.Runs += m.Runs
			tot.Useful += m.Useful
			tot.Steps += m.Steps
			tot.Yields += m.Yields
			tot.Sim += m.Sim
			for k, v := range m.Stats {
				tot.Stats[k] += v
			}
			for k, v := range m.Prof {
				tot.Prof[k] += v
			}
			for k, v := range m.Status {
				tot.Status[k] += v
			}
			for k, v := range m.KF {
				tot.KF[k] += v
			}
			for k, v := range m.Other {
				tot.Other[k] += v
			}
			for _, h := range m.Hashes {
				hs[h] = true
			}
			for _, h := range m.Coarse {
				cs[h] = true
			}
			firsts[m.First]++
		}
	}
	if viol == nil && len(firsts) > 1 {
		trouble = append(trouble, fmt.Sprintf("nondet: the same scenarios ran differently in different processes: %v", firsts))
	}
	explored := time.Since(t0).Seconds()
	code := 0
	if viol != nil {
		code = report(id, *root, self, kf, *seed, viol)
	}
	if viol == nil && len(trouble) > 0 {
		code = 2
	}
	for _, t := range trouble {
		fmt.Fprintln(stdos.Stderr, "TROUBLE:", t)
	}
	if viol == nil {
		for _, k := range knowns {
			if k.Fixed == "" && k.Property == id {
				n := tot.KF[k.Key]
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s; met in %d runs of this check)\n", id, k.What, k.Key, n)
			}
		}
	}
	for _, k := range sortedKeys(tot.Other) {
		fmt.Printf("note: not a matter of %s: %s\n", id, k)
	}
	fmt.Printf("%s: %d runs, %d distinct, %.0f simulated hours, %.1f s\n", id, tot.Runs, len(hs), float64(tot.Sim)/3.6e12, explored)
	writeEvidence(id, *tier, *root, *seed, tot, len(hs), len(cs), explored, time.Since(t0).Seconds(), viol != nil, *note)
	return code
}

// report minimises a violation, writes its replay file and confirms it in a fresh process.
func report(id, root, self, kf string, base uint64, m *workerMsg) int {
	p := planFor(id, base, m.I)
	dir := filepath.Join(root, "replays")
	stdos.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", id, base, m.I))
	in := file + ".in"
	stdos.WriteFile(in, []byte(jsonText(&Replay{Property: id, Kind: m.Viol.Kind, Seed: p.Seed, Plan: p})), 0o644)
	defer stdos.Remove(in)
	stdos.Remove(file)
	runIt := func(limit time.Duration, args ...string) (int, string) {
		c := stdexec.Command(self, args...)
		var ob bytes.Buffer
		c.Stdout, c.Stderr = &ob, &ob
		if err := c.Start(); err != nil {
			return 2, err.Error()
		}
		t := time.AfterFunc(limit, func() { c.Process.Kill() })
		c.Wait()
		t.Stop()
		return c.ProcessState.ExitCode(), ob.String()
	}
	rc, o := runIt(200*time.Second, "minimise", "-kf", kf, in, file)
	if rc != 0 {
		// not minimised: the seed alone
		rc, o = runIt(250*time.Second, "minimise", "-raw", "-kf", kf, in, file)
	}
	if rc != 0 {
		fmt.Fprintf(stdos.Stderr, "scenario %d violated the property (%s: %s) but does not do so again: %s\n", m.I, m.Viol.Kind, m.Viol.Msg, o)
		return 2
	}
	rc, o = runIt(200*time.Second, "replay", "-kf", kf, file)
	if rc != 1 || !strings.Contains(o, "exact reproduction: true") {
		fmt.Fprintf(stdos.Stderr, "the replay of scenario %d is not exact: %s\n", m.I, o)
		return 2
	}
	fmt.Print(o)
	return 1
}

func minimiseMain(args []string) int {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	raw := fs.Bool("raw", false, "")
	kf := fs.String("kf", "", "")
	sec := fs.Int("sec", 60, "")
	fs.Parse(args)
	loadKF(*kf)
	b, err := stdos.ReadFile(fs.Arg(0))
	if err != nil {
		return 2
	}
	var rp Replay
	if json.Unmarshal(b, &rp) != nil {
		return 2
	}
	var plan *Plan
	var log []rt.Decision
	var res *Result
	if !*raw {
		plan, log, res = minimise(rp.Plan, rp.Property, rp.Kind, time.Duration(*sec)*time.Second)
	} else {
		r := execute(rp.Plan, runOpts{})
		if r.Viol != nil {
			plan, log = rp.Plan, r.Log
			res = execute(plan, runOpts{replay: true, log: log})
		}
	}
	if plan == nil || res == nil || res.Viol == nil {
		fmt.Println("the violation did not occur again")
		return 2
	}
	rp.Original, rp.Steps = rp.Plan.steps(), plan.steps()
	rp.Plan, rp.Decisions, rp.Hash, rp.Msg, rp.Tags, rp.Kind = plan, log, fmt.Sprintf("%x", res.Hash), res.Viol.Msg, append(res.Viol.Tags, res.Viol.Ctx...), res.Viol.Kind
	if err := stdos.WriteFile(fs.Arg(1), []byte(jsonText(&rp)), 0o644); err != nil {
		return 2
	}
	return 0
}

func writeEvidence(id, tier, root string, seed uint64, t *workerMsg, distinct, coarse int, explored, wall float64, violated bool, note string) {
	faults := map[string]int{}
	other := map[string]int{}
	for k, v := range t.Stats {
		if strings.HasPrefix(k, "fault.") {
			faults[k[6:]] += v
		} else {
			other[k] = v
		}
	}
	var samples []any
	for i := uint64(0); i < 3; i++ {
		samples = append(samples, planFor(id, seed, i))
	}
	ph := func(n int) float64 {
		if explored <= 0 {
			return 0
		}
		return float64(int(float64(n) / explored * 3600))
	}
	v := 0
	if violated {
		v = 1
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": v,
		"coverage": map[string]any{
			"evaluations":         t.Runs,
			"distinct_nontrivial": distinct,
			"rule":                "One evaluation is one simulated execution of ferryd (scenario generated from the seed, schedule and faults drawn by the seeded simulator). Non-trivial: at least one job or operation finished and was judged and, for properties about disturbances, at least one fault fired. Distinct: different hash of the whole event sequence (scheduling decisions, file operations, faults, requests, answers).",
			"samples":             samples,
			"runs_per_hour":       ph(t.Runs),
			"seeds":               "every run has a seed of its own, so runs_per_hour is also seeds per hour",
			"nontrivial_runs":     t.Useful,
			"distinct_histories":  coarse,
			"simulated_seconds":   float64(t.Sim) / 1e9,
			"scheduler_steps":     t.Steps,
			"preemption_points":   t.Yields,
			"faults_injected":     faults,
			"counters":            other,
			"scenario_profiles":   t.Prof,
			"inconclusive_runs":   t.Status,
			"known_findings_met":  t.KF,
			"other_violations":    t.Other,
			"real_code":           []string{"all of src/ferryd, src/libdb, src/libeopkg, src/libferry, and the commands of src/ferryctl in the ctl scenarios (compiled from /repo with imports redirected)", "goleveldb with its journal, memdb, table and compaction code", "cloudflare-go over a simulated transport, httprouter, logrus, toml, pflag, encoding/gob, encoding/xml, encoding/json, archive/zip"},
			"stand_ins":           []string{"operating system: file system, processes, signals, clock, unix sockets, inotify, flock, mmap (simulator)", "goroutine scheduler, channels, mutexes, timers, map iteration order (simulator)", "net/http server and client transport (message-level stand-in)", "xz and zstd (stand-ins with the real tools' rules about suffixes, overwriting and partial output)", "systemd activation"},
		},
		"assumptions": []string{
			"a kill loses no completed file operation (process crash, not power loss: the code never syncs)",
			"the file system is POSIX: atomic rename, hard links, unlink of open files",
			"preemption happens at statements of ferryd's own code and at every blocking, file, lock and channel operation, sequentially consistent memory in between",
		},
	}
	if note != "" {
		ev["coverage"].(map[string]any)["build_note"] = note
	}
	dir := filepath.Join(root, "evidence")
	stdos.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	stdos.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}

var _ = sort.Strings
