//go:build libdb

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"slices"
	"sort"
	"strings"

	"github.com/getsolus/ferryd/src/libdb"

	"verif.local/sim/rt"
	simsync "verif.local/sim/shim/sync"
)

func init() { specials["libdb"] = libdbMain }

// dbVal is what is stored. Sum guards against mixed-up or damaged values.
type dbVal struct {
	Ver  uint64
	Key  string
	Blob []byte
	Sum  uint64
}

func (v *dbVal) sum() uint64 {
	h := uint64(14695981039346656037)
	for _, b := range []byte(fmt.Sprintf("%d %s ", v.Ver, v.Key)) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	for _, b := range v.Blob {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return h
}

// dbOp is one write or batch.
type dbOp struct {
	seq      int
	w        int
	chg      []dbChg
	acked    bool
	abort    bool // our own function returned an error: must not be applied
	base     bool
	errAbort error
}

type dbChg struct {
	bk, key string
	ver     uint64 // 0: removed
}

// dbKey is the history of one key; every key has one writer.
type dbKey struct {
	hist []dbVer
}

type dbVer struct {
	op  *dbOp
	ver uint64
}

type dbSim struct {
	*spec
	db      libdb.Database
	names   [][]string // buckets
	keys    map[string]map[string]*dbKey
	ops     [][]*dbOp // by writer, this phase
	ver     uint64
	nops    int
	writers int
	blob    int
	seqs    []string
	seqHave map[string]map[uint64]int // 1 surely there, 2 perhaps
	seqMax  map[string]uint64
	opened  bool
}

var errApp = errors.New("the caller gives up")

func libdbMain(r *Run) {
	s := &dbSim{spec: newSpec(r, 0x11bdb, "C20"), keys: map[string]map[string]*dbKey{}, seqHave: map[string]map[uint64]int{}, seqMax: map[string]uint64{}}
	s.what = "the use of the database"
	pool := [][]string{nil, {"a"}, {"ab"}, {"abc"}, {"Async"}, {"Sync"}, {"repo"}, {"repo", "x"}, {"repo", "xy"}, {"repo", "x", "package"}, {"é"}, {"e"}, {"|"}, {"A b"}, {"unstable-x86"}, {"pool"}, {"pool", ""}, {"p"}, {"repo", "y"}, {"CompletedSuccess"}, {"CompletedSuccess", "Record"}}
	n := 2 + s.rnd.Intn(5)
	at := s.rnd.Intn(len(pool))
	for i := 0; i < n; i++ {
		if s.rnd.P(0.5) {
			at = s.rnd.Intn(len(pool))
		}
		s.names = append(s.names, pool[at%len(pool)])
		at++
	}
	s.names = uniqNames(s.names)
	s.writers = 1 + s.rnd.Intn(4)
	if s.rnd.P(0.15) {
		s.blob = 40000 + s.rnd.Intn(300000)
	}
	for i := 0; i < 1+s.rnd.Intn(2); i++ {
		s.seqs = append(s.seqs, []string{"seq", "se", "sequence"}[(i+int(r.p.Seed))%3])
	}
	phases := 1 + r.p.N%4
	for ph := 0; ph < phases; ph++ {
		s.arm(0.55, 0.4, []int{6, 25, 80}[s.rnd.Intn(3)])
		if !s.proc(s.session, 900*sec) {
			return
		}
		s.w.MixCoarse(fmt.Sprintf("phase %d killed %v fired %d", ph, s.p.Killed, s.fired))
	}
	s.disarm()
	s.proc(func(p *rt.Proc) {
		if !s.open(true) {
			return
		}
		s.collide()
		s.db.Close()
	}, 900*sec)
}

func uniqNames(in [][]string) (out [][]string) {
	seen := map[string]bool{}
	for _, n := range in {
		if k := bkName(n); !seen[k] {
			seen[k] = true
			out = append(out, n)
		}
	}
	return
}

func bkName(n []string) string { return strings.Join(n, "\x00/") }

func (s *dbSim) bucket(db libdb.Database, n []string) libdb.Database {
	for _, x := range n {
		db = db.Bucket([]byte(x))
	}
	return db
}

func (s *dbSim) key(bk, k string) *dbKey {
	m := s.keys[bk]
	if m == nil {
		m = map[string]*dbKey{}
		s.keys[bk] = m
	}
	if m[k] == nil {
		m[k] = &dbKey{hist: []dbVer{{op: &dbOp{acked: true, base: true}}}}
	}
	return m[k]
}

// open opens the database and compares everything in it with what was done.
func (s *dbSim) open(must bool) bool {
	f := s.fired
	armed := s.errN > 0
	db, err := libdb.Open(base + "/db")
	if err != nil {
		if s.fired == f && !armed || must {
			s.r.fail([]string{"C20", "C13", "C15"}, "dbopen", "the database cannot be opened any more: %v", err)
		}
		return false
	}
	s.db = db
	if s.fired != f {
		return true
	}
	return s.verify()
}

// all reads the whole database.
func (s *dbSim) all() (map[string]map[string]uint64, bool) {
	got := map[string]map[string]uint64{}
	for _, n := range s.names {
		m, ok := s.iterate(s.bucket(s.db, n), bkName(n), false)
		if !ok {
			return nil, false
		}
		got[bkName(n)] = m
	}
	return got, true
}

func (s *dbSim) verify() bool {
	f := s.fired
	got, ok := s.all()
	if !ok || s.fired != f {
		return s.r.viol == nil
	}
	s.r.stats["checks"]++
	for w := range s.ops {
		var maybe []*dbOp
		for _, o := range s.ops[w] {
			if !o.acked && !o.abort {
				maybe = append(maybe, o)
			}
		}
		if len(maybe) > 8 {
			s.w.Fatal = "too many unclear writes"
			return false
		}
		okay := false
		diff := ""
		for mask := 0; mask < 1<<len(maybe) && !okay; mask++ {
			in := map[*dbOp]bool{}
			for i, o := range maybe {
				in[o] = mask>>i&1 == 1
			}
			d := ""
			for _, n := range s.names {
				bk := bkName(n)
				for _, k := range sortedKeys(s.keys[bk]) {
					if writerOf(k) != w {
						continue
					}
					var want uint64
					for _, v := range s.keys[bk][k].hist {
						if v.op.acked || in[v.op] {
							want = v.ver
						}
					}
					if got[bk][k] != want {
						d = fmt.Sprintf("bucket %q key %q holds version %d, not %d", bk, k, got[bk][k], want)
					}
				}
			}
			if d == "" {
				okay = true
			} else if diff == "" || mask == 0 {
				diff = d
			}
		}
		if !okay {
			var h []string
			for _, o := range s.ops[w] {
				h = append(h, fmt.Sprintf("%v %v acked=%v", o.seq, o.chg, o.acked))
			}
			if len(h) > 12 {
				h = h[len(h)-12:]
			}
			s.r.fail([]string{"C20"}, "reopen", "after reopening: %s; no choice of the %d unfinished batches explains what is there; last batches: %s", diff, len(maybe), strings.Join(h, "; "))
			return false
		}
	}
	// the present state is the new base
	for _, n := range s.names {
		bk := bkName(n)
		for _, k := range sortedKeys(s.keys[bk]) {
			s.keys[bk][k].hist = []dbVer{{op: &dbOp{acked: true, base: true}, ver: got[bk][k]}}
		}
	}
	s.ops = make([][]*dbOp, s.writers)
	for _, q := range s.seqs {
		have := s.readSeq(q)
		if s.fired != f || s.r.viol != nil {
			return s.r.viol == nil
		}
		var lost []uint64
		for k, st := range s.seqHave[q] {
			if st == 1 && !have[k] {
				lost = append(lost, k)
			}
		}
		if len(lost) > 0 {
			slices.Sort(lost)
			s.r.fail([]string{"C20"}, "seqlost", "sequence bucket %q lost %d keys, like %d", q, len(lost), lost[0])
			return false
		}
		m := map[uint64]int{}
		for k := range have {
			if s.seqHave[q][k] == 0 {
				s.r.fail([]string{"C20"}, "seqghost", "sequence bucket %q holds key %d, which was removed or never written", q, k)
				return false
			}
			m[k] = 1
		}
		s.seqHave[q] = m
	}
	s.w.Mix(fmt.Sprint("verified ", len(got)))
	return true
}

func (s *dbSim) readSeq(q string) map[uint64]bool {
	have := map[uint64]bool{}
	err := s.db.Bucket([]byte(q)).ForEach(func(k, v []byte) error {
		var x dbVal
		if len(k) != 8 || s.db.Decode(v, &x) != nil || x.Sum != x.sum() || x.Key != string(k) {
			s.r.fail([]string{"C20"}, "iterforeign", "iterating sequence bucket %q shows %q", q, k)
			return errApp
		}
		have[binary.BigEndian.Uint64(k)] = true
		return nil
	})
	if err != nil && s.r.viol == nil {
		s.w.Tracef("reading sequence bucket %q: %v", q, err)
	}
	return have
}

func writerOf(k string) int {
	i := strings.IndexByte(k, '#')
	return int(k[i+1] - '0')
}

// keysOf are the keys of a writer in every bucket; the first two are only written together, in
// one bucket, the third only in all buckets of a batch at once.
func keysOf(w int) []string {
	return []string{fmt.Sprintf("pair1#%d", w), fmt.Sprintf("pair2#%d", w), fmt.Sprintf("cross#%d", w),
		fmt.Sprintf("#%d", w), fmt.Sprintf("\x00#%d\xff", w), fmt.Sprintf("k-#%d", w), fmt.Sprintf("k-#%d-%s", w, strings.Repeat("x", 200)), fmt.Sprintf("\xff\xff#%d", w)}
}

// session is one life of the process.
func (s *dbSim) session(p *rt.Proc) {
	if !s.open(false) {
		return
	}
	if s.ops == nil {
		s.ops = make([][]*dbOp, s.writers)
	}
	g := &group{s: s.spec}
	n := 3 + s.rnd.Intn(25)
	if s.blob > 0 {
		n += 20
	}
	for w := 0; w < s.writers; w++ {
		g.goRun(fmt.Sprintf("writer %d", w), func() { s.writer(w, n, rt.NewRand(s.rnd.U64())) })
	}
	for i := 0; i < 1+s.rnd.Intn(2); i++ {
		g.goRun(fmt.Sprintf("reader %d", i), func() { s.reader(n, rt.NewRand(s.rnd.U64())) })
	}
	mu := &simsync.Mutex{}
	for i := 0; i < 1+s.rnd.Intn(2); i++ {
		for _, q := range s.seqs {
			g.goRun("sequence "+q, func() { s.sequence(q, 1+n/2, mu, rt.NewRand(s.rnd.U64())) })
		}
	}
	g.wait()
	switch s.rnd.Intn(4) {
	case 0: // ends without closing
	case 1:
		s.db.Close()
		s.db.Close()
	default:
		s.db.Close()
	}
}

func (s *dbSim) val(k string, rnd *rt.Rand) *dbVal {
	s.ver++
	v := &dbVal{Ver: s.ver, Key: k}
	switch {
	case s.blob > 0 && rnd.P(0.5):
		v.Blob = bytes.Repeat([]byte{byte(s.ver), 1, 7, byte(s.ver >> 8)}, s.blob/4)
	case rnd.P(0.5):
		v.Blob = bytes.Repeat([]byte{byte(s.ver)}, rnd.Intn(60))
	}
	v.Sum = v.sum()
	return v
}

func (s *dbSim) writer(w, n int, rnd *rt.Rand) {
	bad := 0
	ks := keysOf(w)
	for i := 0; i < n && bad < 3 && s.r.viol == nil; i++ {
		o := &dbOp{seq: len(s.ops[w]), w: w}
		type act struct {
			bk  []string
			key string
			v   *dbVal
		}
		var acts []act
		add := func(bk []string, k string, v *dbVal) {
			acts = append(acts, act{bk, k, v})
			c := dbChg{bk: bkName(bk), key: k}
			if v != nil {
				c.ver = v.Ver
			}
			o.chg = append(o.chg, c)
		}
		bk := s.names[rnd.Intn(len(s.names))]
		single := false
		del := func(k string) *dbVal {
			if rnd.P(0.25) {
				return nil
			}
			return s.val(k, rnd)
		}
		switch rnd.Intn(5) {
		case 0, 1: // one plain write
			k := ks[3+rnd.Intn(len(ks)-3)]
			add(bk, k, del(k))
			single = true
		case 2: // the pair
			v1, v2 := s.val(ks[0], rnd), s.val(ks[1], rnd)
			v2.Ver = v1.Ver
			v2.Sum = v2.sum()
			if rnd.P(0.2) {
				v1, v2 = nil, nil
			}
			add(bk, ks[0], v1)
			add(bk, ks[1], v2)
		case 3: // across all buckets
			v := s.val(ks[2], rnd)
			if rnd.P(0.2) {
				v = nil
			}
			for _, b := range s.names {
				add(b, ks[2], v)
			}
		default: // mixed, also the same key twice
			for j := 0; j < 1+rnd.Intn(5); j++ {
				k := ks[3+rnd.Intn(len(ks)-3)]
				add(s.names[rnd.Intn(len(s.names))], k, del(k))
			}
		}
		o.abort = !single && rnd.P(0.15)
		s.ops[w] = append(s.ops[w], o)
		for _, c := range o.chg {
			if !o.abort {
				k := s.key(c.bk, c.key)
				k.hist = append(k.hist, dbVer{o, c.ver})
			} else {
				s.key(c.bk, c.key)
			}
		}
		do := func(db libdb.Database, a act) error {
			if a.v == nil {
				return db.DeleteObject([]byte(a.key))
			}
			return db.PutObject([]byte(a.key), a.v)
		}
		f := s.fired
		var err error
		if single {
			err = do(s.bucket(s.db, acts[0].bk), acts[0])
		} else {
			same := true
			for _, a := range acts {
				same = same && bkName(a.bk) == bkName(acts[0].bk)
			}
			handle := s.db
			if same && rnd.P(0.5) {
				handle = s.bucket(s.db, acts[0].bk)
			} else {
				same = false
			}
			cut := -1
			if o.abort {
				o.errAbort = []error{errApp, libdb.ErrNotFound, io.EOF, fmt.Errorf("no: %w", libdb.ErrNotFound)}[rnd.Intn(4)]
				cut = rnd.Intn(len(acts) + 1)
			}
			err = handle.Update(func(db libdb.Database) error {
				for i, a := range acts {
					if i == cut {
						return o.errAbort
					}
					b := db
					if !same {
						b = s.bucket(db, a.bk)
					}
					if err := do(b, a); err != nil {
						return err
					}
				}
				if o.abort {
					return o.errAbort
				}
				return nil
			})
		}
		switch {
		case o.abort:
			if err == nil {
				s.r.fail([]string{"C20"}, "abort", "a batch whose function failed was reported as done")
				return
			}
		case err == nil:
			o.acked = true
		default:
			bad++
			if s.fired == 0 {
				s.r.fail([]string{"C20"}, "writefail", "a write fails without any fault: %v", err)
				return
			}
			_ = f
		}
		s.nops++
		if rnd.P(0.08) {
			s.reserved(bk, rnd)
		}
		if rnd.P(0.3) {
			s.get(bk, ks[rnd.Intn(len(ks))])
		}
		if rnd.P(0.1) {
			s.w.Sleep(int64(rnd.Intn(50)) * 1000000)
		}
	}
}

// reserved: keys that look like bucket names are refused.
func (s *dbSim) reserved(bk []string, rnd *rt.Rand) {
	k := []byte([]string{"|bucket|-|rootBucket|-a-k#0", "|bucket|", "|rootBucket|-x", "|rootBucket|-"}[rnd.Intn(4)])
	b := s.bucket(s.db, bk)
	var err error
	switch rnd.Intn(3) {
	case 0:
		err = b.PutObject(k, &dbVal{})
	case 1:
		err = b.DeleteObject(k)
	default:
		err = b.Update(func(db libdb.Database) error { return db.PutObject(k, &dbVal{}) })
	}
	if err == nil {
		s.r.fail([]string{"C20"}, "reserved", "the reserved key %q was accepted", k)
	}
}

// span gives what may be read from a key.
func (k *dbKey) lo() int {
	for i := len(k.hist) - 1; i > 0; i-- {
		if k.hist[i].op.acked {
			return i
		}
	}
	return 0
}

func (k *dbKey) allows(lo int, ver uint64) bool {
	for _, v := range k.hist[lo:] {
		if v.ver == ver && !v.op.abort {
			return true
		}
	}
	return false
}

func (s *dbSim) get(bk []string, key string) (uint64, bool) {
	name := bkName(bk)
	k := s.key(name, key)
	lo, f := k.lo(), s.fired
	b := s.bucket(s.db, bk)
	var v dbVal
	err := b.GetObject([]byte(key), &v)
	if s.fired != f {
		return 0, false
	}
	if err != nil {
		v = dbVal{}
	} else if v.Key != key || v.Sum != v.sum() {
		s.r.fail([]string{"C20"}, "value", "bucket %q key %q reads as %q version %d (damaged %v)", name, key, v.Key, v.Ver, v.Sum != v.sum())
		return 0, false
	}
	if !k.allows(lo, v.Ver) {
		s.r.fail([]string{"C20"}, "stale", "bucket %q key %q reads version %d (%v), but the last finished write was %d", name, key, v.Ver, err, k.hist[lo].ver)
		return 0, false
	}
	lo2 := k.lo()
	has, err2 := b.HasObject([]byte(key))
	if s.fired == f {
		if err2 != nil {
			s.r.fail([]string{"C20"}, "has", "looking for bucket %q key %q fails: %v", name, key, err2)
			return 0, false
		}
		okay := false
		for _, x := range k.hist[lo2:] {
			okay = okay || (x.ver != 0) == has
		}
		if !okay {
			s.r.fail([]string{"C20"}, "has", "bucket %q key %q: present=%v", name, key, has)
			return 0, false
		}
	}
	s.r.stats["reads"]++
	return v.Ver, true
}

// iterate visits a bucket and judges what it sees.
func (s *dbSim) iterate(b libdb.Database, name string, judge bool) (map[string]uint64, bool) {
	f := s.fired
	lo := map[string]int{}
	for k, h := range s.keys[name] {
		lo[k] = h.lo()
	}
	got := map[string]uint64{}
	last := ""
	n := 0
	err := b.ForEach(func(k, val []byte) error {
		ks := string(k)
		if n > 0 && ks <= last {
			s.r.fail([]string{"C20"}, "iterorder", "iterating bucket %q shows %q after %q", name, ks, last)
			return errApp
		}
		n++
		last = ks
		if s.keys[name][ks] == nil {
			s.r.fail([]string{"C20", "C11"}, "iterforeign", "iterating bucket %q shows key %q, which is none of its keys", name, ks)
			return errApp
		}
		var v dbVal
		if err := b.Decode(val, &v); err != nil || v.Key != ks || v.Sum != v.sum() || v.Ver == 0 {
			s.r.fail([]string{"C20"}, "itervalue", "iterating bucket %q: key %q has the value of %q (%v)", name, ks, v.Key, err)
			return errApp
		}
		got[ks] = v.Ver
		return nil
	})
	if s.r.viol != nil || s.fired != f {
		return nil, false
	}
	if err != nil {
		s.r.fail([]string{"C20"}, "itererror", "iterating bucket %q fails: %v", name, err)
		return nil, false
	}
	if !judge {
		return got, true
	}
	for _, k := range sortedKeys(s.keys[name]) {
		if !s.keys[name][k].allows(lo[k], got[k]) {
			s.r.fail([]string{"C20"}, "iterstale", "iterating bucket %q shows version %d of %q, but the last finished write was %d", name, got[k], k, s.keys[name][k].hist[lo[k]].ver)
			return nil, false
		}
	}
	for w := 0; w < s.writers; w++ {
		ks := keysOf(w)
		if got[ks[0]] != got[ks[1]] {
			s.r.fail([]string{"C20"}, "torn", "iterating bucket %q shows versions %d and %d of two keys that are only written together", name, got[ks[0]], got[ks[1]])
			return nil, false
		}
	}
	s.r.stats["iterations"]++
	return got, true
}

func (s *dbSim) reader(n int, rnd *rt.Rand) {
	for i := 0; i < n && s.r.viol == nil; i++ {
		bk := s.names[rnd.Intn(len(s.names))]
		w := rnd.Intn(s.writers)
		ks := keysOf(w)
		switch rnd.Intn(4) {
		case 0:
			s.iterate(s.bucket(s.db, bk), bkName(bk), true)
		case 1:
			b := s.bucket(s.db, bk)
			b.View(func(v libdb.ReadOnlyView) error {
				s.iterate(roView{v, b}, bkName(bk), true)
				return nil
			})
		case 2:
			s.get(bk, ks[rnd.Intn(len(ks))])
		default: // one batch, two reads: the second is not older
			o := s.names[rnd.Intn(len(s.names))]
			k1, k2 := ks[2], ks[2]
			if rnd.P(0.3) {
				o, k1, k2 = bk, ks[0], ks[1]
			}
			s.key(bkName(bk), k1)
			s.key(bkName(o), k2)
			h1, h2 := s.key(bkName(bk), k1), s.key(bkName(o), k2)
			v1, ok1 := s.get(bk, k1)
			if !ok1 || v1 == 0 {
				continue
			}
			v2, ok2 := s.get(o, k2)
			if !ok2 {
				continue
			}
			i1, i2 := h1.find(v1), h2.find(v2)
			if v2 != 0 && i1 >= 0 && i2 >= 0 && i2 < i1 {
				s.r.fail([]string{"C20"}, "torn", "key %q of bucket %q shows batch version %d, but key %q of bucket %q afterwards still version %d", k1, bkName(bk), v1, k2, bkName(o), v2)
			}
		}
		if rnd.P(0.2) {
			s.w.Sleep(int64(rnd.Intn(20)) * 1000000)
		}
	}
}

// find gives the position of the operation that wrote the version.
func (k *dbKey) find(ver uint64) int {
	for _, v := range k.hist {
		if v.ver == ver && v.op.acked && !v.op.base {
			return v.op.seq
		}
	}
	return -1
}

// roView lets a view be iterated like a database.
type roView struct {
	libdb.ReadOnlyView
	libdb.Database
}

func (v roView) ForEach(f libdb.DbForeachFunc) error      { return v.ReadOnlyView.ForEach(f) }
func (v roView) Decode(b []byte, o interface{}) error     { return v.ReadOnlyView.Decode(b, o) }
func (v roView) GetObject(id []byte, o interface{}) error { return v.ReadOnlyView.GetObject(id, o) }
func (v roView) HasObject(id []byte) (bool, error)        { return v.ReadOnlyView.HasObject(id) }

// sequence adds and removes entries as the job store does: number and entry under one lock.
func (s *dbSim) sequence(q string, n int, mu *simsync.Mutex, rnd *rt.Rand) {
	b := s.db.Bucket([]byte(q))
	put := func(h libdb.Database, k uint64) error {
		key := make([]byte, 8)
		binary.BigEndian.PutUint64(key, k)
		v := s.val(string(key), rnd)
		return h.PutObject(key, v)
	}
	have := func() map[uint64]int {
		if s.seqHave[q] == nil {
			s.seqHave[q] = map[uint64]int{}
		}
		return s.seqHave[q]
	}
	bad, fill := 0, 0
	if rnd.P(0.12) { // a long backlog, so that keys differ in more than the last byte
		fill = 257 + rnd.Intn(300)
		n += fill
	}
	for i := 0; i < n && bad < 3 && s.r.viol == nil; i++ {
		mu.Lock()
		m := have()
		f := s.fired
		if len(m) == 0 && rnd.P(0.5) { // start near a carry
			k := []uint64{253, 254, 255, 65534, 1<<32 - 2}[rnd.Intn(5)]
			m[k] = 2
			if put(b, k) == nil {
				m[k] = 1
			} else {
				bad++
			}
			mu.Unlock()
			continue
		}
		if len(m) > 0 && i >= fill && rnd.P(0.35) {
			ks := make([]uint64, 0, len(m))
			for k := range m {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
			k := ks[rnd.Intn(len(ks))]
			if rnd.P(0.5) {
				k = ks[0]
			}
			key := make([]byte, 8)
			binary.BigEndian.PutUint64(key, k)
			m[k] = 2
			if b.DeleteObject(key) == nil {
				delete(m, k)
			} else {
				bad++
			}
			mu.Unlock()
			continue
		}
		var k uint64
		var err error
		judge := func(id []byte) bool {
			if s.fired != f && id == nil {
				return false
			}
			if len(id) != 8 {
				s.r.fail([]string{"C20"}, "seqkey", "the next sequence key of %q is %x", q, id)
				return false
			}
			k = binary.BigEndian.Uint64(id)
			for o, st := range m {
				if st == 1 && o >= k {
					s.r.fail([]string{"C20", "C03", "C02"}, "seqkey", "the next sequence key of %q is %d although %d is in use", q, k, o)
					return false
				}
			}
			return true
		}
		s.r.stats["sequences"]++
		if rnd.P(0.5) {
			id := b.NextSequence()
			if !judge(id) || s.fired != f {
				mu.Unlock()
				continue
			}
			if m[k] == 0 {
				m[k] = 2
			}
			err = put(b, k)
		} else {
			err = s.db.Update(func(db libdb.Database) error {
				h := db.Bucket([]byte(q))
				id := h.NextSequence()
				if !judge(id) || s.fired != f {
					return errApp
				}
				if m[k] == 0 {
					m[k] = 2
				}
				return put(h, k)
			})
		}
		if err == nil {
			m[k] = 1
		} else if err != errApp {
			bad++
			if s.fired == 0 {
				s.r.fail([]string{"C20"}, "writefail", "a write fails without any fault: %v", err)
			}
		}
		mu.Unlock()
		if rnd.P(0.2) {
			s.w.Sleep(int64(rnd.Intn(20)) * 1000000)
		}
	}
}

// collide looks whether an entry can be reached through another bucket.
func (s *dbSim) collide() {
	if s.rnd.P(0.8) {
		return
	}
	a, b := s.db.Bucket([]byte("col")), s.db.Bucket([]byte("col-lide"))
	if a.PutObject([]byte("lide-k"), &dbVal{Ver: 9}) != nil {
		return
	}
	s.r.stats["checks"]++
	if has, err := b.HasObject([]byte("k")); err == nil && has {
		s.r.kf["libdb-key-collision"] = "x"
		s.w.Mix("kf libdb-key-collision")
	}
	a.DeleteObject([]byte("lide-k"))
}
