// Package syscall replaces the standard package inside the simulation: the calls the code under
// test makes act on the simulated kernel, everything else is refused.
package syscall

import (
	std "syscall"
	"unsafe"

	"verif.local/sim/rt"
)

func of(fd int) *rt.OpenFile {
	if !rt.InSim() {
		return nil
	}
	return rt.W.OpenFD(fd)
}
func Flock(fd int, how int) error {
	f := of(fd)
	if f == nil {
		return std.EBADF
	}
	return f.Flock(how)
}

func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	f := of(fd)
	if f == nil {
		return nil, std.EBADF
	}
	b, err := f.Mmap(offset, length)
	if err == nil && len(b) > 0 {
		rt.W.Cur().Proc.Mappings()[uintptr(unsafe.Pointer(&b[0]))] = len(b)
	}
	return b, err
}
func Munmap(b []byte) error {
	rt.CheckKilled()
	if len(b) == 0 || !rt.InSim() {
		return std.EINVAL
	}
	m := rt.W.Cur().Proc.Mappings()
	k := uintptr(unsafe.Pointer(&b[0]))
	if m[k] != len(b) {
		return std.EINVAL
	}
	delete(m, k)
	return nil
}
func Getpid() int {
	if !rt.InSim() {
		return 0
	}
	return rt.W.Cur().Proc.Pid
}
func Getuid() int   { return 0 }
func Getgid() int   { return 0 }
func Geteuid() int  { return 0 }
func Getegid() int  { return 0 }
func Umask(int) int { return 0 }
func Kill(pid int, sig Signal) error {
	if !rt.InSim() {
		return std.ESRCH
	}
	return rt.W.Signal(pid, sig)
}
func Exit(code int) {
	if rt.InSim() {
		rt.W.Exit(rt.W.Cur().Proc, code)
	}
}
func Link(a, b string) error            { return bare(rt.W.FS.LinkFile(a, b)) }
func Symlink(a, b string) error         { return bare(rt.W.FS.Symlink(a, b)) }
func Unlink(p string) error             { return bare(rt.W.FS.Unlink(p)) }
func Rmdir(p string) error              { return bare(rt.W.FS.Rmdir(p)) }
func Rename(a, b string) error          { return bare(rt.W.FS.Rename(a, b)) }
func Mkdir(p string, mode uint32) error { return bare(rt.W.FS.Mkdir(p, 0o777)) }
func Fsync(fd int) error {
	f := of(fd)
	if f == nil {
		return std.EBADF
	}
	return bare(f.Sync())
}
func Fdatasync(fd int) error { return Fsync(fd) }
func Stat(p string, st *Stat_t) error {
	i, err := rt.W.FS.Stat(p)
	if err != nil {
		return bare(err)
	}
	*st = *i.Sys().(*std.Stat_t)
	return nil
}
func Lstat(p string, st *Stat_t) error {
	i, err := rt.W.FS.Lstat(p)
	if err != nil {
		return bare(err)
	}
	*st = *i.Sys().(*std.Stat_t)
	return nil
}
func Fstat(fd int, st *Stat_t) error {
	f := of(fd)
	if f == nil {
		return std.EBADF
	}
	i, err := f.Stat()
	if err != nil {
		return bare(err)
	}
	*st = *i.Sys().(*std.Stat_t)
	return nil
}
func Statfs(p string, st *Statfs_t) error {
	*st = Statfs_t{Bsize: 4096, Blocks: 1 << 30, Bfree: 1 << 29, Bavail: 1 << 29}
	return nil
}
func Sync() {}

func bare(err error) error {
	for err != nil {
		if e, ok := err.(std.Errno); ok {
			return e
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return err
		}
		err = u.Unwrap()
	}
	return nil
}
