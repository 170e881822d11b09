package rt

import (
	"errors"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the simulated file system: inodes with hard links, directories, symbolic links,
// advisory locks, change notification and fault injection. It lives in memory only.
type FS struct {
	w        *World
	Root     *Inode
	nextIno  uint64
	watches  []*Watch
	Mutation uint64 // number of mutating operations so far
	Ops      uint64

	// Fault is consulted before every operation of a non-harness process.
	Fault func(op *Op) *Verdict
	// Observe is called after every mutation (also harness ones).
	Observe func(op *Op)
	// Peek is called after a read or mapping by a daemon.
	Peek func(op *Op)
	// Used bytes; limits are applied by the fault policy.
}

type Inode struct {
	Ino    uint64
	Mode   fs.FileMode
	Data   []byte
	Kids   map[string]*Inode
	Link   string // symlink target
	Nlink  int
	Mtime  time.Time
	Uid    int
	Gid    int
	lock   *OpenFile // flock holder (exclusive)
	shared map[*OpenFile]bool
	Open   int
	Gen    uint64 // bumped on each data change
}

func (n *Inode) IsDir() bool { return n.Mode.IsDir() }

// Op describes one file system operation.
type Op struct {
	Kind  string // open create read write trunc rename link symlink unlink mkdir readdir stat sync mmap chmod lock
	Path  string
	Path2 string
	N     int // bytes for writes
	Node  *Inode
	Mut   bool
	Proc  *Proc
	Old   *Inode // replaced by a rename, or unlinked
}

// Verdict is the fault policy's decision for an operation.
type Verdict struct {
	Err        error // fail with this errno
	Short      int   // with Err on write: bytes actually written first
	KillBefore bool
	KillAfter  bool
	KillShort  int // with KillBefore on write: bytes written before the kill (torn write)
	Stall      int64
}

type OpenFile struct {
	fs     *FS
	Node   *Inode
	Name   string
	Path   string
	Flags  int
	off    int64
	Closed bool
	Proc   *Proc
	FD     int
	Wrote  bool
	Sink   func(b []byte) // stdout and stderr
	dirPos int
	dirEnt []fs.DirEntry
}

type Watch struct {
	Dir     *Inode
	Path    string
	Proc    *Proc
	Deliver func(name string, mask string)
	dead    bool
}

func newFS(w *World) *FS {
	f := &FS{w: w}
	f.Root = f.newInode(fs.ModeDir | 0o755)
	f.Root.Nlink = 2
	return f
}

func (f *FS) newInode(mode fs.FileMode) *Inode {
	f.nextIno++
	n := &Inode{Ino: f.nextIno, Mode: mode, Nlink: 1, Mtime: f.wall()}
	if mode.IsDir() {
		n.Kids = map[string]*Inode{}
	}
	return n
}

func (f *FS) wall() time.Time { return Epoch.Add(time.Duration(f.w.now + f.w.WallOff)) }

// WallNow is the simulated wall clock.
func (w *World) WallNow() time.Time { return w.FS.wall() }

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func Clean(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	return path.Clean(p)
}

const maxLink = 20

// walk resolves p; it returns the parent directory, last name and node (nil when absent).
func (f *FS) walk(p string, follow bool) (dir *Inode, name string, n *Inode, err error) {
	return f.walkN(p, follow, 0)
}

func (f *FS) walkN(p string, follow bool, depth int) (dir *Inode, name string, n *Inode, err error) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if depth > maxLink {
		return nil, "", nil, syscall.ELOOP
	}
	trail := strings.HasSuffix(p, "/")
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	var parts []string
	for _, c := range strings.Split(p, "/") {
		if c == "" || c == "." {
			continue
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		parts = append(parts, c)
	}
	stack := []*Inode{f.Root}
	names := []string{}
	cur := f.Root
	for i, c := range parts {
		last := i == len(parts)-1
		if !cur.IsDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			cur = stack[len(stack)-1]
			if last {
				return cur, ".", cur, nil
			}
			continue
		}
		k := cur.Kids[c]
		if k != nil && k.Mode&fs.ModeSymlink != 0 && (!last || follow || trail) {
			t := k.Link
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(names, "/") + "/" + t
			}
			rest := strings.Join(parts[i+1:], "/")
			if rest != "" {
				t += "/" + rest
			}
			return f.walkN(t, follow, depth+1)
		}
		if last {
			if k != nil && trail && !k.IsDir() {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, c, k, nil
		}
		if k == nil {
			return nil, "", nil, syscall.ENOENT
		}
		stack = append(stack, k)
		names = append(names, c)
		cur = k
	}
	return cur, ".", cur, nil
}

// begin runs the fault policy for op; it returns an error to inject.
func (f *FS) begin(op *Op) (*Verdict, error) {
	w := f.w
	if w.cur == nil {
		return nil, nil
	}
	w.Yield()
	w.now += 2000
	f.Ops++
	op.Proc = w.cur.Proc
	if op.Proc == w.HarnessP || op.Proc.Data["harness"] != nil {
		if op.Mut {
			f.Mutation++
		}
		return nil, nil
	}
	if op.Mut {
		w.note(uint64(len(op.Path)) + uint64(op.N)<<8)
		w.now += 20000
	}
	var v *Verdict
	if f.Fault != nil {
		v = f.Fault(op)
	}
	if v != nil {
		if v.Stall > 0 {
			w.Tracef("fault: stall %s %s %.1fs", op.Kind, op.Path, float64(v.Stall)/1e9)
			w.Sleep(v.Stall)
		}
		if v.KillBefore && v.KillShort == 0 {
			w.Tracef("fault: kill before %s %s", op.Kind, op.Path)
			w.Kill(op.Proc)
		}
	}
	if op.Mut {
		f.Mutation++
	}
	if v != nil && v.Err != nil {
		w.Tracef("fault: %v on %s %s", v.Err, op.Kind, op.Path)
		return v, v.Err
	}
	return v, nil
}

func (f *FS) end(op *Op, v *Verdict) {
	w := f.w
	if op.Mut {
		if w.TraceOn && w.cur != nil && w.cur.Proc != w.HarnessP && (AllTrace || !strings.Contains(op.Path, "ferry_db")) && !strings.HasSuffix(op.Path, ".log") {
			w.Tracef("%s: %s %s %s %d", w.cur.Proc.Name, op.Kind, op.Path, op.Path2, op.N)
		}
		if f.Observe != nil {
			f.Observe(op)
		}
	}
	if f.Peek != nil && !op.Mut && (op.Kind == "read" || op.Kind == "mmap") && w.cur != nil && w.cur.Proc != w.HarnessP {
		f.Peek(op)
	}
	if v != nil && v.KillAfter {
		w.Tracef("fault: kill after %s %s", op.Kind, op.Path)
		w.Kill(op.Proc)
	}
}

func (f *FS) notify(dir *Inode, name, mask string) {
	for _, wt := range f.watches {
		if !wt.dead && wt.Dir == dir {
			wt.Deliver(path.Join(wt.Path, name), mask)
		}
	}
}

// notifyNode reports events on an inode through every directory that is watched.
func (f *FS) notifyFile(of *OpenFile, mask string) {
	if len(f.watches) == 0 {
		return
	}
	dir, name, n, err := f.walk(of.Path, true)
	if err == nil && n == of.Node {
		f.notify(dir, name, mask)
	}
}

func (f *FS) AddWatch(p string, deliver func(name, mask string)) (*Watch, error) {
	_, _, n, err := f.walk(p, true)
	if err != nil {
		return nil, err
	}
	if n == nil {
		return nil, syscall.ENOENT
	}
	w := &Watch{Dir: n, Path: p, Deliver: deliver}
	if f.w.cur != nil {
		w.Proc = f.w.cur.Proc
	}
	f.watches = append(f.watches, w)
	return w, nil
}

func (f *FS) RemoveWatch(w *Watch) {
	w.dead = true
	var o []*Watch
	for _, x := range f.watches {
		if !x.dead {
			o = append(o, x)
		}
	}
	f.watches = o
}

// closeProc drops everything a dead process held.
func (f *FS) closeProc(p *Proc) {
	var fds []int
	for fd := range p.FDs {
		fds = append(fds, fd)
	}
	sort.Ints(fds)
	for _, fd := range fds {
		of := p.FDs[fd]
		of.Closed = true
		of.release()
	}
	p.FDs = map[int]*OpenFile{}
	var o []*Watch
	for _, x := range f.watches {
		if x.Proc != p {
			o = append(o, x)
		} else {
			x.dead = true
		}
	}
	f.watches = o
}

func (of *OpenFile) release() {
	if of.Node != nil {
		of.unlock()
		of.Node.Open--
	}
}

const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	accMode  = syscall.O_RDONLY | syscall.O_WRONLY | syscall.O_RDWR
)

func (f *FS) OpenFile(p string, flag int, perm fs.FileMode) (*OpenFile, error) {
	_, _, n0, e0 := f.walk(p, true)
	creating := flag&syscall.O_CREAT != 0 && e0 == nil && n0 == nil
	trunc := flag&syscall.O_TRUNC != 0 && e0 == nil && n0 != nil && !n0.IsDir()
	op := &Op{Kind: "open", Path: p, Mut: creating || trunc, Node: n0}
	if creating {
		op.Kind = "create"
	} else if trunc {
		op.Kind = "trunc"
	}
	v, err := f.begin(op)
	if err != nil {
		return nil, perr("open", p, err)
	}
	dir, name, n, err := f.walk(p, true)
	if err != nil {
		return nil, perr("open", p, err)
	}
	if n == nil {
		if flag&syscall.O_CREAT == 0 {
			return nil, perr("open", p, syscall.ENOENT)
		}
		if dir.Nlink == 0 {
			return nil, perr("open", p, syscall.ENOENT)
		}
		n = f.newInode(perm & 0o777)
		dir.Kids[name] = n
		dir.Mtime = f.wall()
		op.Node = n
		f.notify(dir, name, "create")
	} else {
		if flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0 {
			return nil, perr("open", p, syscall.EEXIST)
		}
		if n.IsDir() && (flag&accMode != syscall.O_RDONLY || flag&syscall.O_CREAT != 0) {
			return nil, perr("open", p, syscall.EISDIR)
		}
		if flag&syscall.O_TRUNC != 0 && !n.IsDir() {
			n.Data = nil
			n.Gen++
			n.Mtime = f.wall()
			op.Node = n
			f.notify(dir, name, "modify")
		}
	}
	for n.Mode&fs.ModeNamedPipe != 0 && flag&syscall.O_NONBLOCK == 0 && f.w.cur != nil {
		f.w.Sleep(3600e9) // nobody ever opens the other end
	}
	of := &OpenFile{fs: f, Node: n, Name: p, Path: Clean(p), Flags: flag}
	n.Open++
	f.register(of)
	f.end(op, v)
	return of, nil
}

func (f *FS) register(of *OpenFile) {
	if c := f.w.cur; c != nil {
		of.Proc = c.Proc
		of.FD = c.Proc.nextFD
		c.Proc.nextFD++
		c.Proc.FDs[of.FD] = of
	}
}

func (of *OpenFile) Close() error {
	w := of.fs.w
	if w.cur != nil {
		w.checkKilled()
	}
	if of.Closed {
		return perr("close", of.Name, fs.ErrClosed)
	}
	var lost error
	if of.Wrote && w.cur != nil {
		// What was written may only now turn out not to fit or to be writable
		// (network file systems, quotas): the second half of the file is lost.
		if _, lost = of.fs.begin(&Op{Kind: "close", Path: of.Path, Node: of.Node}); lost != nil {
			of.Node.truncate(int64(len(of.Node.Data) / 2))
		}
		if of.Closed {
			return perr("close", of.Name, fs.ErrClosed)
		}
	}
	of.Closed = true
	if of.Proc != nil {
		delete(of.Proc.FDs, of.FD)
	}
	of.release()
	if of.Node != nil && !of.Node.IsDir() {
		if of.Flags&accMode != syscall.O_RDONLY {
			of.fs.notifyFile(of, "close_write")
		}
	}
	if w.cur != nil {
		w.Yield()
	}
	if lost != nil {
		return perr("close", of.Name, lost)
	}
	return nil
}

func (of *OpenFile) check(op string) error {
	if of.fs != nil && of.fs.w.cur != nil {
		of.fs.w.checkKilled()
	}
	if of.Closed {
		return perr(op, of.Name, fs.ErrClosed)
	}
	return nil
}

func (of *OpenFile) Read(b []byte) (int, error) {
	n, err := of.pread(b, of.off)
	of.off += int64(n)
	return n, err
}

func (of *OpenFile) pread(b []byte, off int64) (int, error) {
	if err := of.check("read"); err != nil {
		return 0, err
	}
	if of.Node.IsDir() {
		return 0, perr("read", of.Name, syscall.EISDIR)
	}
	if of.Flags&accMode == syscall.O_WRONLY {
		return 0, perr("read", of.Name, syscall.EBADF)
	}
	op := &Op{Kind: "read", Path: of.Path, Node: of.Node, N: len(b)}
	v, err := of.fs.begin(op)
	if err != nil {
		return 0, perr("read", of.Name, err)
	}
	if off < 0 {
		return 0, perr("read", of.Name, syscall.EINVAL)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(of.Node.Data)) {
		return 0, io.EOF
	}
	n := copy(b, of.Node.Data[off:])
	of.fs.end(op, v)
	return n, nil
}

func (of *OpenFile) ReadAt(b []byte, off int64) (int, error) {
	tot := 0
	for len(b) > 0 {
		n, err := of.pread(b, off)
		tot += n
		if err != nil {
			return tot, err
		}
		b = b[n:]
		off += int64(n)
	}
	return tot, nil
}

func (of *OpenFile) Write(b []byte) (int, error) {
	if of.Sink != nil {
		of.Sink(b)
		return len(b), nil
	}
	off := of.off
	if of.Flags&syscall.O_APPEND != 0 {
		off = int64(len(of.Node.Data))
	}
	n, err := of.pwrite(b, off, of.Flags&syscall.O_APPEND != 0)
	of.off = off + int64(n)
	return n, err
}

func (of *OpenFile) WriteAt(b []byte, off int64) (int, error) { return of.pwrite(b, off, false) }

func (of *OpenFile) pwrite(b []byte, off int64, app bool) (int, error) {
	if err := of.check("write"); err != nil {
		return 0, err
	}
	if of.Flags&accMode == syscall.O_RDONLY {
		return 0, perr("write", of.Name, syscall.EBADF)
	}
	op := &Op{Kind: "write", Path: of.Path, Node: of.Node, N: len(b), Mut: true}
	v, err := of.fs.begin(op)
	if app {
		off = int64(len(of.Node.Data))
	}
	put := func(b []byte) {
		end := off + int64(len(b))
		d := of.Node.Data
		if int64(len(d)) < end {
			if int64(cap(d)) < end {
				nd := make([]byte, end, end+end/2)
				copy(nd, d)
				d = nd
			} else {
				d = d[:end]
			}
		}
		copy(d[off:], b)
		of.Node.Data = d
		of.Node.Gen++
		of.Node.Mtime = of.fs.wall()
		of.Wrote = true
		of.fs.notifyFile(of, "modify")
	}
	if v != nil && v.KillBefore && v.KillShort > 0 {
		n := v.KillShort
		if n > len(b) {
			n = len(b)
		}
		put(b[:n])
		of.fs.end(op, nil)
		of.fs.w.Tracef("fault: kill in write %s after %d of %d bytes", of.Path, n, len(b))
		of.fs.w.Kill(op.Proc)
	}
	if err != nil {
		n := 0
		if v.Short > 0 && v.Short < len(b) {
			n = v.Short
			put(b[:n])
			of.fs.end(op, nil)
		}
		return n, perr("write", of.Name, err)
	}
	put(b)
	of.fs.end(op, v)
	return len(b), nil
}

func (of *OpenFile) Seek(off int64, whence int) (int64, error) {
	if err := of.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
	case 1:
		off += of.off
	case 2:
		off += int64(len(of.Node.Data))
	}
	if off < 0 {
		return 0, perr("seek", of.Name, syscall.EINVAL)
	}
	of.off = off
	of.dirEnt, of.dirPos = nil, 0
	return off, nil
}

func (of *OpenFile) Truncate(n int64) error {
	if err := of.check("truncate"); err != nil {
		return err
	}
	op := &Op{Kind: "trunc", Path: of.Path, Node: of.Node, Mut: true}
	v, err := of.fs.begin(op)
	if err != nil {
		return perr("truncate", of.Name, err)
	}
	of.Node.truncate(n)
	of.Node.Mtime = of.fs.wall()
	of.fs.notifyFile(of, "modify")
	of.fs.end(op, v)
	return nil
}

func (n *Inode) truncate(sz int64) {
	n.Gen++
	if sz <= int64(len(n.Data)) {
		n.Data = append([]byte(nil), n.Data[:sz]...)
		return
	}
	n.Data = append(n.Data, make([]byte, sz-int64(len(n.Data)))...)
}

func (f *FS) Truncate(p string, n int64) error {
	of, err := f.OpenFile(p, syscall.O_WRONLY, 0)
	if err != nil {
		return perr("truncate", p, err.(*fs.PathError).Err)
	}
	defer of.Close()
	return of.Truncate(n)
}

func (of *OpenFile) Sync() error {
	if err := of.check("sync"); err != nil {
		return err
	}
	op := &Op{Kind: "sync", Path: of.Path, Node: of.Node}
	v, err := of.fs.begin(op)
	if err != nil {
		return perr("sync", of.Name, err)
	}
	of.fs.end(op, v)
	return nil
}

func (of *OpenFile) Stat() (fs.FileInfo, error) {
	if err := of.check("stat"); err != nil {
		return nil, err
	}
	if of.Node == nil {
		return nil, perr("stat", of.Name, syscall.EBADF)
	}
	return of.Node.info(path.Base(of.Name)), nil
}

// Flock has flock(2) semantics; how is the syscall argument.
func (of *OpenFile) Flock(how int) error {
	w := of.fs.w
	if of.Closed || of.Node == nil {
		return syscall.EBADF
	}
	if _, err := of.fs.begin(&Op{Kind: "flock", Path: of.Path, Node: of.Node}); err != nil {
		return err
	}
	if of.Closed || of.Node == nil {
		return syscall.EBADF
	}
	n := of.Node
	for {
		othersShared := len(n.shared)
		if n.shared[of] {
			othersShared--
		}
		switch {
		case how&syscall.LOCK_UN != 0:
			of.unlock()
			return nil
		case how&syscall.LOCK_SH != 0 && (n.lock == nil || n.lock == of):
			n.lock = nil
			if n.shared == nil {
				n.shared = map[*OpenFile]bool{}
			}
			n.shared[of] = true
			return nil
		case how&syscall.LOCK_EX != 0 && othersShared == 0 && (n.lock == nil || n.lock == of):
			delete(n.shared, of)
			n.lock = of
			return nil
		case how&(syscall.LOCK_EX|syscall.LOCK_SH) == 0:
			return syscall.EINVAL
		case how&syscall.LOCK_NB != 0:
			return syscall.EWOULDBLOCK
		}
		w.Sleep(10e6)
	}
}

func (of *OpenFile) unlock() {
	if of.Node.lock == of {
		of.Node.lock = nil
	}
	delete(of.Node.shared, of)
}

type Info struct {
	name string
	size int64
	mode fs.FileMode
	mt   time.Time
	Node *Inode
	st   *syscall.Stat_t
}

func (i *Info) Name() string       { return i.name }
func (i *Info) Size() int64        { return i.size }
func (i *Info) Mode() fs.FileMode  { return i.mode }
func (i *Info) ModTime() time.Time { return i.mt }
func (i *Info) IsDir() bool        { return i.mode.IsDir() }
func (i *Info) Sys() any           { return i.st }

func (n *Inode) info(name string) *Info {
	st := &syscall.Stat_t{Ino: n.Ino, Nlink: uint64(n.Nlink), Size: int64(len(n.Data)), Uid: uint32(n.Uid), Gid: uint32(n.Gid), Mode: uint32(n.Mode.Perm())}
	return &Info{name: name, size: int64(len(n.Data)), mode: n.Mode, mt: n.Mtime, Node: n, st: st}
}

func (f *FS) stat(kind, p string, follow bool) (fs.FileInfo, error) {
	op := &Op{Kind: "stat", Path: p}
	if f.w.cur != nil {
		f.w.checkKilled()
	}
	v, err := f.begin(op)
	if err != nil {
		return nil, perr(kind, p, err)
	}
	_, name, n, err := f.walk(p, follow)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr(kind, p, err)
	}
	if name == "." {
		name = path.Base(Clean(p))
	}
	f.end(op, v)
	return n.info(path.Base(Clean(p))), nil
}
func (f *FS) Stat(p string) (fs.FileInfo, error)  { return f.stat("stat", p, true) }
func (f *FS) Lstat(p string) (fs.FileInfo, error) { return f.stat("lstat", p, false) }

func (f *FS) Mkdir(p string, perm fs.FileMode) error {
	op := &Op{Kind: "mkdir", Path: p, Mut: true}
	v, err := f.begin(op)
	if err != nil {
		return perr("mkdir", p, err)
	}
	dir, name, n, err := f.walk(strings.TrimRight(p, "/"), false)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return perr("mkdir", p, err)
	}
	n = f.newInode(fs.ModeDir | perm&0o777)
	dir.Kids[name] = n
	op.Node = n
	f.notify(dir, name, "create")
	f.end(op, v)
	return nil
}

func (f *FS) MkdirAll(p string, perm fs.FileMode) error {
	if st, err := f.Stat(p); err == nil {
		if st.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	d := path.Dir(strings.TrimRight(p, "/"))
	if d != "/" && d != "." && d != p {
		if err := f.MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := f.Mkdir(p, perm)
	if err != nil {
		if st, e2 := f.Lstat(p); e2 == nil && st.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

// Remove is os.Remove: unlink or rmdir.
func (f *FS) Remove(p string) error { return f.remove(p, 0) }

func (f *FS) remove(p string, only int) error {
	op := &Op{Kind: "unlink", Path: p, Mut: true}
	_, _, n, err := f.walk(p, false)
	op.Node, op.Old = n, n
	v, err2 := f.begin(op)
	if err2 != nil {
		return perr("remove", p, err2)
	}
	dir, name, n, err := f.walk(p, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr("remove", p, err)
	}
	if name == "." {
		return perr("remove", p, syscall.EINVAL)
	}
	if n.IsDir() {
		if only == 1 {
			return perr("unlink", p, syscall.EISDIR)
		}
		if len(n.Kids) > 0 {
			return perr("remove", p, syscall.ENOTEMPTY)
		}
		n.Nlink = 0
	} else {
		if only == 2 {
			return perr("rmdir", p, syscall.ENOTDIR)
		}
		n.Nlink--
	}
	delete(dir.Kids, name)
	dir.Mtime = f.wall()
	f.notify(dir, name, "delete")
	f.end(op, v)
	return nil
}
func (f *FS) Unlink(p string) error { return f.remove(p, 1) }
func (f *FS) Rmdir(p string) error  { return f.remove(p, 2) }

func (f *FS) RemoveAll(p string) error {
	if p == "" {
		return nil
	}
	if strings.HasSuffix(p, ".") && (p == "." || strings.HasSuffix(p, "/.")) {
		return perr("RemoveAll", p, syscall.EINVAL)
	}
	st, err := f.Lstat(p)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ENOTDIR) {
			return nil
		}
		return err
	}
	if st.IsDir() {
		ents, err := f.ReadDir(p)
		if err != nil {
			return err
		}
		var first error
		for _, e := range ents {
			if err := f.RemoveAll(path.Join(p, e.Name())); err != nil && first == nil {
				first = err
			}
		}
		if first != nil {
			return first
		}
	}
	err = f.Remove(p)
	if errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	return err
}

type linkErr = struct{}

// LinkError builds the error os returns for two-path operations; set by the os shim.
var LinkError = func(op, a, b string, err error) error { return perr(op, a, err) }

func (f *FS) Rename(a, b string) error {
	op := &Op{Kind: "rename", Path: a, Path2: b, Mut: true}
	_, _, n, _ := f.walk(a, false)
	_, _, o, _ := f.walk(b, false)
	op.Node, op.Old = n, o
	v, err := f.begin(op)
	if err != nil {
		return LinkError("rename", a, b, err)
	}
	da, na, n, err := f.walk(a, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return LinkError("rename", a, b, err)
	}
	db, nb, o, err := f.walk(b, false)
	if err != nil {
		return LinkError("rename", a, b, err)
	}
	if o != nil {
		if o == n {
			return nil
		}
		if o.IsDir() != n.IsDir() {
			if o.IsDir() {
				return LinkError("rename", a, b, syscall.EEXIST)
			}
			return LinkError("rename", a, b, syscall.ENOTDIR)
		}
		if o.IsDir() && len(o.Kids) > 0 {
			return LinkError("rename", a, b, syscall.ENOTEMPTY)
		}
		o.Nlink--
	}
	delete(da.Kids, na)
	db.Kids[nb] = n
	op.Node, op.Old = n, o
	f.notify(da, na, "moved_from")
	f.notify(db, nb, "moved_to")
	f.end(op, v)
	return nil
}

func (f *FS) LinkFile(a, b string) error {
	op := &Op{Kind: "link", Path: a, Path2: b, Mut: true}
	v, err := f.begin(op)
	if err != nil {
		return LinkError("link", a, b, err)
	}
	_, _, n, err := f.walk(a, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && n.IsDir() {
		err = syscall.EPERM
	}
	if err != nil {
		return LinkError("link", a, b, err)
	}
	db, nb, o, err := f.walk(b, false)
	if err == nil && o != nil {
		err = syscall.EEXIST
	}
	if err == nil && db.Nlink == 0 {
		err = syscall.ENOENT
	}
	if err != nil {
		return LinkError("link", a, b, err)
	}
	db.Kids[nb] = n
	n.Nlink++
	op.Node = n
	f.notify(db, nb, "create")
	f.end(op, v)
	return nil
}

func (f *FS) Symlink(target, p string) error {
	op := &Op{Kind: "symlink", Path: p, Path2: target, Mut: true}
	v, err := f.begin(op)
	if err != nil {
		return LinkError("symlink", target, p, err)
	}
	dir, name, n, err := f.walk(p, false)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return LinkError("symlink", target, p, err)
	}
	n = f.newInode(fs.ModeSymlink | 0o777)
	n.Link = target
	dir.Kids[name] = n
	f.notify(dir, name, "create")
	f.end(op, v)
	return nil
}

func (f *FS) Readlink(p string) (string, error) {
	_, _, n, err := f.walk(p, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && n.Mode&fs.ModeSymlink == 0 {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", p, err)
	}
	return n.Link, nil
}

type dirEnt struct{ i *Info }

func (d dirEnt) Name() string               { return d.i.name }
func (d dirEnt) IsDir() bool                { return d.i.IsDir() }
func (d dirEnt) Type() fs.FileMode          { return d.i.mode.Type() }
func (d dirEnt) Info() (fs.FileInfo, error) { return d.i, nil }
func (d dirEnt) String() string             { return fs.FormatDirEntry(d) }

func (f *FS) ReadDir(p string) ([]fs.DirEntry, error) {
	op := &Op{Kind: "readdir", Path: p}
	v, err := f.begin(op)
	if err != nil {
		return nil, perr("open", p, err)
	}
	_, _, n, err := f.walk(p, true)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && !n.IsDir() {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return nil, perr("open", p, err)
	}
	f.end(op, v)
	return n.list(), nil
}

func (n *Inode) list() []fs.DirEntry {
	var out []fs.DirEntry
	for k, c := range n.Kids {
		out = append(out, dirEnt{c.info(k)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// ReadDirN implements (*os.File).ReadDir on an open directory.
func (of *OpenFile) ReadDirN(n int) ([]fs.DirEntry, error) {
	if err := of.check("readdirent"); err != nil {
		return nil, err
	}
	if !of.Node.IsDir() {
		return nil, perr("readdirent", of.Name, syscall.ENOTDIR)
	}
	op := &Op{Kind: "readdir", Path: of.Path, Node: of.Node}
	if _, err := of.fs.begin(op); err != nil {
		return nil, perr("readdirent", of.Name, err)
	}
	if of.dirEnt == nil {
		of.dirEnt = of.Node.list()
		of.dirPos = 0
	}
	rest := of.dirEnt[of.dirPos:]
	if n <= 0 {
		of.dirPos = len(of.dirEnt)
		return rest, nil
	}
	if len(rest) == 0 {
		return nil, io.EOF
	}
	if n > len(rest) {
		n = len(rest)
	}
	of.dirPos += n
	return rest[:n], nil
}

func (f *FS) meta(kind, p string, follow bool, g func(n *Inode)) error {
	op := &Op{Kind: "chmod", Path: p}
	v, err := f.begin(op)
	if err != nil {
		return perr(kind, p, err)
	}
	_, _, n, err := f.walk(p, follow)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr(kind, p, err)
	}
	g(n)
	f.end(op, v)
	return nil
}
func (f *FS) Chmod(p string, m fs.FileMode) error {
	return f.meta("chmod", p, true, func(n *Inode) { n.Mode = n.Mode.Type() | m&0o7777 })
}
func (f *FS) Chown(p string, u, g int) error {
	return f.meta("chown", p, true, func(n *Inode) { n.Uid, n.Gid = u, g })
}
func (f *FS) Chtimes(p string, t time.Time) error {
	return f.meta("chtimes", p, true, func(n *Inode) { n.Mtime = t })
}

// Mmap returns a private snapshot of the file's contents.
func (of *OpenFile) Mmap(off int64, length int) ([]byte, error) {
	if err := of.check("mmap"); err != nil {
		return nil, syscall.EBADF
	}
	if length == 0 {
		return nil, syscall.EINVAL
	}
	op := &Op{Kind: "mmap", Path: of.Path, Node: of.Node}
	v, err := of.fs.begin(op)
	if err != nil {
		return nil, err
	}
	b := make([]byte, length)
	if off < int64(len(of.Node.Data)) {
		copy(b, of.Node.Data[off:])
	}
	of.fs.end(op, v)
	if len(of.Node.Data) == 0 {
		// The file was cut short while it was mapped, and the mapping is read.
		panic("unexpected fault address (SIGBUS: mapped file " + of.Path + " was truncated)")
	}
	return b, nil
}

// Mkfifo makes a named pipe.
func (f *FS) Mkfifo(p string) {
	if dir, name, n, err := f.walk(p, false); err == nil && n == nil {
		dir.Kids[name] = f.newInode(fs.ModeNamedPipe | 0o644)
	}
}

// --- direct access for the harness (no scheduling, no faults) ---

func (f *FS) Lookup(p string) *Inode {
	_, _, n, err := f.walk(p, true)
	if err != nil {
		return nil
	}
	return n
}

// WalkTree visits every node below p in name order.
func (f *FS) WalkTree(p string, visit func(p string, n *Inode)) {
	n := f.Lookup(p)
	if n == nil {
		return
	}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		visit(p, n)
		if n.IsDir() {
			ks := make([]string, 0, len(n.Kids))
			for k := range n.Kids {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				rec(path.Join(p, k), n.Kids[k])
			}
		}
	}
	rec(p, n)
}

// OpenFD finds an open file of the current process by descriptor.
func (w *World) OpenFD(fd int) *OpenFile {
	if w.cur == nil {
		return nil
	}
	return w.cur.Proc.FDs[fd]
}

// Mappings is the table of live memory mappings of a process.
func (p *Proc) Mappings() map[uintptr]int {
	if p.maps == nil {
		p.maps = map[uintptr]int{}
	}
	return p.maps
}

// StdWrite collects what a process prints.
func (w *World) StdWrite(fd int, b []byte) {
	w.checkKilled()
	p := w.cur.Proc
	if fd == 2 {
		p.ErrOut += string(b)
	}
	if len(p.Out) < 1<<16 {
		p.Out += string(b)
	}
	w.Tracef("%s: print %q", p.Name, string(b))
}

// NextTemp numbers temporary names.
func (w *World) NextTemp() int { w.tempN++; return 100000 + w.tempN }

// ExecFault asks the fault policy about starting a helper program.
func (f *FS) ExecFault(tool string, args []string) *Verdict {
	f.w.Yield()
	if f.Fault == nil || f.w.cur.Proc == f.w.HarnessP {
		return nil
	}
	v := f.Fault(&Op{Kind: "exec", Path: tool, Proc: f.w.cur.Proc})
	if v != nil && v.KillBefore {
		f.w.Kill(f.w.cur.Proc)
	}
	return v
}

// NextPid allocates a process id.
func (w *World) NextPid() int { w.nextPid++; return w.nextPid - 1 }

// Mksock creates a socket node.
func (f *FS) Mksock(p string) (*Inode, error) {
	op := &Op{Kind: "mksock", Path: p, Mut: true}
	v, err := f.begin(op)
	if err != nil {
		return nil, err
	}
	dir, name, n, err := f.walk(p, true)
	if err != nil {
		return nil, err
	}
	if n != nil {
		return nil, syscall.EEXIST
	}
	n = f.newInode(fs.ModeSocket | 0o777&^f.w.Umask)
	n.Uid, n.Gid = f.w.Uid, f.w.DirGid
	dir.Kids[name] = n
	op.Node = n
	f.notify(dir, name, "create")
	f.end(op, v)
	return n, nil
}

// AllTrace includes the database files in traces.
var AllTrace bool
