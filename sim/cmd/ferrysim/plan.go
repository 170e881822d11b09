package main

import (
	"encoding/json"
	"fmt"
)

// A Plan is one complete scenario: everything but the scheduler's choices.
type Plan struct {
	Profile   string   `json:"profile"`
	Seed      uint64   `json:"seed"` // seed of all scheduling and environment choices
	PreemptN  int      `json:"preempt"`
	PickP     float64  `json:"pick"`
	Jobs      int      `json:"jobs"`
	Activated bool     `json:"activated,omitempty"`
	Pid       int      `json:"pid,omitempty"`
	Pkgs      []Pkg    `json:"pkgs"`
	Phases    []Phase  `json:"phases"`
	TermEnd   bool     `json:"term,omitempty"` // end with a graceful stop
	Inc       bool     `json:"inc,omitempty"`  // mid-run status probing
	Extra     string   `json:"extra,omitempty"`
	N         int      `json:"n,omitempty"`
	DBBuf     int      `json:"dbbuf,omitempty"` // size of the database's write buffer; small: it behaves like one with much data
	CDN       *CDNPlan `json:"cdn,omitempty"`
	Lost      bool     `json:"lost,omitempty"`   // a directory that is no repository lies among them
	DBCold    bool     `json:"dbcold,omitempty"` // without the database's caches, so that it reads from disk
}

// Phase: the clients run concurrently; afterwards the system is left alone until it is idle
// and everything is compared with the model.
type Phase struct {
	Pre     []Step   `json:"pre,omitempty"` // asset files written while idle, before the clients start
	Clients [][]Step `json:"clients"`
	Faults  []Fault  `json:"faults,omitempty"`
	Restart string   `json:"restart,omitempty"` // before the phase: "", "kill", "term"
	Heal    bool     `json:"heal,omitempty"`    // after the phase: faults cleared and, if the database was hit, restart
}

type Step struct {
	Op    string `json:"op"`
	Repo  string `json:"repo,omitempty"`
	Repo2 string `json:"repo2,omitempty"`
	Src   string `json:"src,omitempty"`
	Rel   int    `json:"rel,omitempty"`
	Rel2  int    `json:"rel2,omitempty"` // upload: which file is wrong, 0: the last
	Flag  bool   `json:"flag,omitempty"`
	Pkgs  []int  `json:"pkgs,omitempty"`
	Pad   int    `json:"pad,omitempty"`
	Name  string `json:"name,omitempty"`
	Body  string `json:"body,omitempty"`
	Mode  string `json:"mode,omitempty"`
	Ms    int    `json:"ms,omitempty"`
}

// Fault is armed when its phase begins.
type Fault struct {
	Kind  string `json:"kind"`            // kill, killtime, term, eio, enospc, short, stall, tool, clock, cdn, watch
	Class string `json:"class,omitempty"` // data, db, any
	Nth   int    `json:"nth,omitempty"`   // on the nth matching operation
	Count int    `json:"count,omitempty"` // how many operations in a row
	Mode  string `json:"mode,omitempty"`  // kill: before, after, short; op filter for the others
	Ms    int    `json:"ms,omitempty"`
	Down  int    `json:"down,omitempty"` // ms before the restart
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

// untangle drops requests whose records could not be told apart from those of different requests.
func (p *Plan) untangle() {
	for i := range p.Phases {
		ph := &p.Phases[i]
		type first struct {
			client int
			what   string
		}
		seen := map[string]first{}
		for ci := range ph.Clients {
			var keep []Step
			for _, s := range ph.Clients[ci] {
				if s.isJob() && s.Op != "upload" {
					c := s
					c.Ms = 0
					b, _ := json.Marshal(&c)
					f, ok := seen[s.Describe()]
					if ok && f.what != string(b) && (f.client != ci || len(ph.Faults) > 0) {
						continue
					}
					if !ok {
						seen[s.Describe()] = first{ci, string(b)}
					}
				}
				keep = append(keep, s)
			}
			ph.Clients[ci] = keep
		}
	}
}

func (p *Plan) size() int {
	n := len(p.Pkgs)
	for _, f := range p.Phases {
		n += 3 + 4*len(f.Faults)
		for _, c := range f.Clients {
			n += 1
			for _, s := range c {
				n += 2 + len(s.Pkgs)
			}
		}
	}
	return n
}

func (p *Plan) steps() int {
	n := 0
	for _, f := range p.Phases {
		for _, c := range f.Clients {
			n += len(c)
		}
	}
	return n
}

func (s *Step) String() string {
	b, _ := json.Marshal(s)
	return string(b)
}

const (
	base    = "/sim/ferryd"
	sock    = "/run/ferryd.sock"
	srcDir  = "/srv/build"
	xmlHead = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
)

// Describe is the text under which a job is listed.
func (s *Step) Describe() string {
	switch s.Op {
	case "create":
		return fmt.Sprintf("Create repository '%s'", s.Repo)
	case "delete":
		return fmt.Sprintf("Delete repository '%s'", s.Repo)
	case "delta":
		return fmt.Sprintf("Produce deltas for '%s'", s.Repo)
	case "index":
		return fmt.Sprintf("Index repository '%s'", s.Repo)
	case "import":
		return fmt.Sprintf("Add %d packages to repository '%s'", len(s.Pkgs)+s.Pad, s.Repo)
	case "clone":
		return fmt.Sprintf("Clone repository '%s' into '%s'", s.Repo, s.Repo2)
	case "pull":
		return fmt.Sprintf("Pull repository '%s' into '%s'", s.Repo2, s.Repo)
	case "copy":
		return fmt.Sprintf("Copy sources by id '%s' (rel: %d) in '%s' to '%s'", s.Src, s.Rel, s.Repo, s.Repo2)
	case "rmsrc":
		return fmt.Sprintf("Remove sources by id '%s' (rel: %d) in '%s'", s.Src, s.Rel, s.Repo)
	case "trim":
		return fmt.Sprintf("Trim packages to maximum of %d in '%s'", s.Rel, s.Repo)
	case "trimobs":
		return fmt.Sprintf("Trim obsoletes from repository '%s'", s.Repo)
	case "upload":
		return fmt.Sprintf("Process manifest '%s/incoming/%s'", base, s.Name)
	}
	return ""
}

// isJob: the step queues a job.
func (s *Step) isJob() bool { return s.Describe() != "" }

// targets are the repositories the job may change.
func (s *Step) targets() []string {
	switch s.Op {
	case "clone", "copy":
		return []string{s.Repo2}
	case "delta":
		return nil
	}
	if s.isJob() {
		return []string{s.Repo}
	}
	return nil
}
