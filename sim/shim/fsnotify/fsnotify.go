// Package fsnotify replaces radu-munteanu/fsnotify inside the simulation.
package fsnotify

import (
	"bytes"
	"errors"
	"fmt"
	"path/filepath"

	"verif.local/sim/rt"
)

type Event struct {
	Name string
	Op   Op
}
type Op uint32

const (
	Create Op = 1 << iota
	Write
	Remove
	Rename
	Chmod
	Update
	Close
)

func (op Op) String() string {
	var b bytes.Buffer
	for i, n := range []string{"CREATE", "WRITE", "REMOVE", "RENAME", "CHMOD", "UPDATE", "CLOSE"} {
		if op&(1<<uint(i)) != 0 {
			b.WriteString("|" + n)
		}
	}
	if b.Len() == 0 {
		return ""
	}
	return b.String()[1:]
}
func (e Event) String() string { return fmt.Sprintf("%q: %s", e.Name, e.Op.String()) }

var ErrEventOverflow = errors.New("fsnotify queue overflow")

const queueMax = 16384 // fs.inotify.max_queued_events

type Watcher struct {
	Events chan Event
	Errors chan error
	done   chan struct{}
	resp   chan struct{}
	queue  []Event
	q      rt.WaitQ
	closed bool
	ws     map[string]*rt.Watch
	over   bool
}

func NewWatcher() (*Watcher, error) {
	w := &Watcher{Events: make(chan Event), Errors: make(chan error), done: make(chan struct{}), resp: make(chan struct{}), ws: map[string]*rt.Watch{}}
	p := rt.W.Cur().Proc
	rt.W.OnWatchErr = append(rt.W.OnWatchErr, func() bool {
		if !p.Alive || w.closed {
			return false
		}
		// The kernel's queue was full of events nobody cares about.
		w.over = true
		w.q.WakeAll()
		return true
	})
	rt.W.Spawn(p, "fsnotify", w.read)
	return w, nil
}

func (w *Watcher) Add(name string) error {
	name = filepath.Clean(name)
	if w.closed {
		return errors.New("inotify instance already closed")
	}
	if w.ws[name] != nil {
		return nil
	}
	h, err := rt.W.FS.AddWatch(name, func(full, mask string) { w.push(full, mask) })
	if err != nil {
		return err
	}
	w.ws[name] = h
	return nil
}
func (w *Watcher) Remove(name string) error {
	name = filepath.Clean(name)
	h := w.ws[name]
	if h == nil {
		return fmt.Errorf("can't remove non-existent inotify watch for: %s", name)
	}
	delete(w.ws, name)
	rt.W.FS.RemoveWatch(h)
	return nil
}

// push runs in kernel context.
func (w *Watcher) push(full, mask string) {
	var op Op
	switch mask {
	case "create":
		op = Create
	case "modify":
		op = Write
	case "close_write":
		op = Update | Close
	case "close_nowrite":
		op = Close
	case "delete":
		op = Remove
	case "moved_from":
		op = Rename
	case "moved_to":
		op = Create | Update
	case "attrib":
		op = Chmod
	default:
		return
	}
	e := Event{full, op}
	if n := len(w.queue); n > 0 && w.queue[n-1] == e {
		return
	}
	if len(w.queue) >= queueMax {
		w.over = true
		return
	}
	w.queue = append(w.queue, e)
	w.q.WakeAll()
}

func (w *Watcher) read() {
	defer func() {
		rt.CheckKilled()
		rt.Close(w.Events)
		rt.Close(w.Errors)
		rt.Close(w.resp)
	}()
	for {
		for len(w.queue) == 0 && !w.over && !w.closed {
			w.q.Wait("inotify")
		}
		if w.closed {
			return
		}
		// One read(2) returns what is queued now.
		batch := w.queue
		w.queue = nil
		if w.over {
			w.over = false
			if rt.Select(false, rt.CS(w.Errors).With(ErrEventOverflow), rt.CR(w.done)) == 1 {
				return
			}
		}
		for _, e := range batch {
			if e.Op&(Remove|Rename) == 0 {
				if _, err := rt.W.FS.Lstat(e.Name); err != nil {
					continue
				}
			}
			if rt.Select(false, rt.CS(w.Events).With(e), rt.CR(w.done)) == 1 {
				return
			}
		}
	}
}

func (w *Watcher) Close() error {
	if w.closed {
		return nil
	}
	w.closed = true
	for n, h := range w.ws {
		rt.W.FS.RemoveWatch(h)
		delete(w.ws, n)
	}
	rt.Close(w.done)
	w.q.WakeAll()
	rt.Recv(w.resp)
	return nil
}
