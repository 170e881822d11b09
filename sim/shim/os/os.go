// Package os replaces the standard package inside the simulation: files, processes, signals and
// the environment are the simulated kernel's.
package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	std "os"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/rt"
)

func init() {
	rt.LinkError = func(op, a, b string, err error) error {
		return &std.LinkError{Op: op, Old: a, New: b, Err: err}
	}
}

type File struct {
	of  *rt.OpenFile
	std int // 1 stdout, 2 stderr
}

var (
	Stdin  = &File{std: 3}
	Stdout = &File{std: 1}
	Stderr = &File{std: 2}
)

func wrap(of *rt.OpenFile, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{of: of}, nil
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return wrap(rt.W.FS.OpenFile(name, flag, perm))
}
func Open(name string) (*File, error) { return OpenFile(name, std.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, std.O_RDWR|std.O_CREATE|std.O_TRUNC, 0o666)
}
func NewFile(fd uintptr, name string) *File {
	if rt.InSim() {
		if of := rt.W.OpenFD(int(fd)); of != nil {
			return &File{of: of}
		}
	}
	return nil
}

func (f *File) ok() error {
	if f == nil {
		return std.ErrInvalid
	}
	return nil
}
func (f *File) Name() string {
	if f.of != nil {
		return f.of.Name
	}
	return [...]string{"", "/dev/stdout", "/dev/stderr", "/dev/stdin"}[f.std]
}
func (f *File) Fd() uintptr {
	if f == nil {
		return ^uintptr(0)
	}
	if f.of != nil {
		if f.of.Closed {
			return ^uintptr(0)
		}
		return uintptr(f.of.FD)
	}
	return uintptr(900 + f.std)
}
func (f *File) Close() error {
	if err := f.ok(); err != nil {
		return err
	}
	if f.of == nil {
		return nil
	}
	return f.of.Close()
}
func (f *File) Read(b []byte) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	if f.of == nil {
		return 0, io.EOF
	}
	return f.of.Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	return f.of.ReadAt(b, off)
}
func (f *File) Write(b []byte) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	if f.of == nil {
		if rt.InSim() {
			rt.W.StdWrite(f.std, b)
		}
		return len(b), nil
	}
	return f.of.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	return f.of.WriteAt(b, off)
}

type plainWriter struct{ f *File }

func (w plainWriter) Write(b []byte) (int, error) { return w.f.Write(b) }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	return io.Copy(plainWriter{f}, r)
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok(); err != nil {
		return 0, err
	}
	return f.of.Seek(off, whence)
}
func (f *File) Truncate(n int64) error {
	if err := f.ok(); err != nil {
		return err
	}
	return f.of.Truncate(n)
}
func (f *File) Sync() error {
	if err := f.ok(); err != nil {
		return err
	}
	if f.of == nil {
		return nil
	}
	return f.of.Sync()
}
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.ok(); err != nil {
		return nil, err
	}
	if f.of == nil {
		return nil, &fs.PathError{Op: "stat", Path: f.Name(), Err: syscall.EBADF}
	}
	return f.of.Stat()
}
func (f *File) Chmod(m fs.FileMode) error { return rt.W.FS.Chmod(f.of.Path, m) }
func (f *File) Chown(u, g int) error      { return rt.W.FS.Chown(f.of.Path, u, g) }
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.ok(); err != nil {
		return nil, err
	}
	return f.of.ReadDirN(n)
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}
func (f *File) SetDeadline(t time.Time) error { return std.ErrNoDeadline }

func Remove(p string) error                   { return rt.W.FS.Remove(p) }
func RemoveAll(p string) error                { return rt.W.FS.RemoveAll(p) }
func Rename(a, b string) error                { return rt.W.FS.Rename(a, b) }
func Link(a, b string) error                  { return rt.W.FS.LinkFile(a, b) }
func Symlink(a, b string) error               { return rt.W.FS.Symlink(a, b) }
func Readlink(p string) (string, error)       { return rt.W.FS.Readlink(p) }
func Mkdir(p string, m fs.FileMode) error     { return rt.W.FS.Mkdir(p, m) }
func MkdirAll(p string, m fs.FileMode) error  { return rt.W.FS.MkdirAll(p, m) }
func Stat(p string) (fs.FileInfo, error)      { return rt.W.FS.Stat(p) }
func Lstat(p string) (fs.FileInfo, error)     { return rt.W.FS.Lstat(p) }
func Chmod(p string, m fs.FileMode) error     { return rt.W.FS.Chmod(p, m) }
func Chown(p string, u, g int) error          { return rt.W.FS.Chown(p, u, g) }
func Lchown(p string, u, g int) error         { return rt.W.FS.Chown(p, u, g) }
func Chtimes(p string, a, m time.Time) error  { return rt.W.FS.Chtimes(p, m) }
func Truncate(p string, n int64) error        { return rt.W.FS.Truncate(p, n) }
func ReadDir(p string) ([]fs.DirEntry, error) { return rt.W.FS.ReadDir(p) }
func ReadFile(p string) ([]byte, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(p string, b []byte, m fs.FileMode) error {
	f, err := OpenFile(p, std.O_WRONLY|std.O_CREATE|std.O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.Sys().(*syscall.Stat_t)
	y, ok2 := b.Sys().(*syscall.Stat_t)
	return ok && ok2 && x.Ino == y.Ino
}
func TempDir() string { return "/tmp" }

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return fmt.Sprintf("%s/%s%d%s", strings.TrimRight(dir, "/"), pre, rt.W.NextTemp(), suf)
}
func MkdirTemp(dir, pattern string) (string, error) {
	for {
		p := tempName(dir, pattern)
		err := Mkdir(p, 0o700)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		if err != nil {
			return "", err
		}
		return p, nil
	}
}
func CreateTemp(dir, pattern string) (*File, error) {
	for {
		f, err := OpenFile(tempName(dir, pattern), std.O_RDWR|std.O_CREATE|std.O_EXCL, 0o600)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}
func CopyFS(string, fs.FS) error { return errors.ErrUnsupported }

type simFS string

func (d simFS) Open(name string) (fs.File, error) { return Open(string(d) + "/" + name) }
func DirFS(dir string) fs.FS                      { return simFS(dir) }
func Getwd() (string, error)                      { return "/", nil }
func Chdir(string) error                          { return nil }
func Hostname() (string, error)                   { return "simhost", nil }
func Getuid() int                                 { return rt.W.Uid }
func Getgid() int                                 { return rt.W.Gid }
func Geteuid() int                                { return rt.W.Uid }
func Getegid() int                                { return rt.W.Gid }
func Executable() (string, error)                 { return "/usr/bin/ferryd", nil }
func Getpid() int {
	if !rt.InSim() {
		return 0
	}
	return rt.W.Cur().Proc.Pid
}
func Getppid() int { return 1 }
func Exit(code int) {
	if !rt.InSim() {
		panic("os.Exit outside the simulation")
	}
	rt.W.Exit(rt.W.Cur().Proc, code)
}

func env() map[string]string {
	if !rt.InSim() {
		return map[string]string{}
	}
	return rt.W.Cur().Proc.Env
}
func Getenv(k string) string            { return env()[k] }
func LookupEnv(k string) (string, bool) { v, ok := env()[k]; return v, ok }
func Setenv(k, v string) error          { env()[k] = v; return nil }
func Unsetenv(k string) error           { delete(env(), k); return nil }
func Clearenv()                         { clear(env()) }
func Environ() []string {
	var out []string
	for k, v := range env() {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}
func ExpandEnv(s string) string { return std.Expand(s, Getenv) }

type Process struct{ Pid int }

func FindProcess(pid int) (*Process, error) { return &Process{pid}, nil }
func (p *Process) Signal(sig std.Signal) error {
	s, ok := sig.(syscall.Signal)
	if !ok {
		return errors.New("os: unsupported signal type")
	}
	if err := rt.W.Signal(p.Pid, s); err != nil {
		return std.ErrProcessDone
	}
	return nil
}
func (p *Process) Kill() error                  { return p.Signal(std.Kill) }
func (p *Process) Release() error               { return nil }
func (p *Process) Wait() (*ProcessState, error) { return nil, syscall.ECHILD }

type ProcessState struct {
	Code   int
	Killed bool
}

func (p *ProcessState) ExitCode() int { return p.Code }
func (p *ProcessState) Success() bool { return p.Code == 0 }
func (p *ProcessState) Exited() bool  { return !p.Killed }
func (p *ProcessState) String() string {
	if p.Killed {
		return "signal: killed"
	}
	return fmt.Sprintf("exit status %d", p.Code)
}
