package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/syndtr/goleveldb/leveldb/opt"

	"verif.local/sim/rt"
)

type runOpts struct {
	trace  bool
	replay bool
	log    []rt.Decision
}

// Result is what one execution showed.
type Result struct {
	Viol   *Viol             `json:"viol,omitempty"`
	KF     map[string]string `json:"kf,omitempty"`
	Reason string            `json:"reason"`
	Status string            `json:"status,omitempty"`
	Fatal  string            `json:"fatal,omitempty"`
	Hash   uint64            `json:"hash"`
	Coarse uint64            `json:"coarse"`
	Steps  uint64            `json:"steps"`
	Yields uint64            `json:"yields"`
	Switch uint64            `json:"switches"`
	Sim    int64             `json:"sim"`
	Wall   time.Duration     `json:"wall"`
	Stats  map[string]int    `json:"stats"`
	Log    []rt.Decision     `json:"-"`
	Trace  []string          `json:"-"`
}

const maxSteps = 6_000_000

func execute(p *Plan, o runOpts) *Result {
	t0 := time.Now()
	opt.DefaultWriteBuffer, opt.DefaultBlockCacheCapacity, opt.DefaultOpenFilesCacheCapacity = 4<<20, 8<<20, 500
	if p.DBBuf > 0 {
		opt.DefaultWriteBuffer = p.DBBuf
	}
	if p.DBCold {
		opt.DefaultBlockCacheCapacity, opt.DefaultOpenFilesCacheCapacity = 1, 1
	}
	r := newRun(p, rt.Config{Seed: p.Seed, Replay: o.replay, Log: o.log, PreemptN: p.PreemptN, PickP: p.PickP, MaxSteps: maxSteps})
	r.trace = o.trace
	r.w.TraceOn = o.trace
	w := r.w
	reason := w.Run(r.main)
	res := &Result{Viol: r.viol, KF: r.kf, Reason: reason, Status: r.status, Fatal: w.Fatal, Hash: w.Hash(), Coarse: w.CoarseHash(), Steps: w.Steps, Yields: w.Yields, Switch: w.Switches, Sim: w.Now(), Stats: w.Stats, Log: w.Log, Trace: w.Trace}
	for k, v := range r.stats {
		res.Stats[k] += v
	}
	res.Stats["probes"] += r.probes
	if res.Viol == nil && res.Fatal == "" {
		switch reason {
		case "step limit", "yield limit":
			res.Viol = newViol(append([]string{"C17"}, r.ctxTags()...), "livelock", "the system runs without end: "+taskSummary(w.AtStop))
		case "deadlock":
			res.Fatal = "deadlock of the simulation: " + taskSummary(w.AtStop)
		}
	}
	for _, k := range sortedKeys(res.KF) {
		if res.Viol == nil && !kfListed(k) {
			res.Viol = &Viol{Tags: kfProps(k), Kind: "kf-" + k, Msg: "defect not listed as known: " + k}
		}
	}
	res.Wall = time.Since(t0)
	return res
}

func jsonText(x any) string {
	b, err := json.MarshalIndent(x, "", " ")
	if err != nil {
		panic(err)
	}
	return string(b)
}

func memUse() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

var _ = fmt.Sprint

// taskSummary groups tasks by what they wait for.
func taskSummary(l []string) string {
	n := map[string]int{}
	for _, x := range l {
		if i, j := strings.IndexByte(x, '/'), strings.IndexByte(x, ' '); i > 0 && j > i {
			x = x[:i] + x[j:]
		}
		n[x]++
	}
	var out []string
	for _, k := range sortedKeys(n) {
		out = append(out, fmt.Sprintf("%d %s", n[k], k))
	}
	return strings.Join(out, "; ")
}
