// Package exec replaces the standard package inside the simulation. The only programs that
// exist are stand-ins for the compressors, with the real tools' rules about suffixes,
// overwriting and partial output. They live and die with the calling process (as they do in
// the daemon's systemd control group).
package exec

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	stdos "os"
	std "os/exec"
	"path"
	"strings"
	"syscall"

	"verif.local/sim/rt"
	"verif.local/sim/shim/os"
)

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error

	ctx      context.Context
	started  bool
	finished bool
	code     int
	startErr error
	done     rt.WaitQ
}

type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

var known = map[string]bool{"xz": true, "unxz": true, "zstd": true, "unzstd": true, "true": true, "false": true}

func LookPath(name string) (string, error) {
	if known[path.Base(name)] {
		return "/usr/bin/" + path.Base(name), nil
	}
	return "", &std.Error{Name: name, Err: std.ErrNotFound}
}
func Command(name string, args ...string) *Cmd {
	p, err := LookPath(name)
	if err != nil {
		p = name
	}
	return &Cmd{Path: p, Args: append([]string{name}, args...), Err: err}
}
func CommandContext(ctx context.Context, name string, args ...string) *Cmd {
	c := Command(name, args...)
	c.ctx = ctx
	return c
}
func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return c.Env }

func (c *Cmd) Start() error {
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	if c.Err != nil {
		return c.Err
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	v := rt.W.FS.ExecFault(path.Base(c.Path), c.Args)
	if v != nil && v.Err != nil {
		return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: v.Err}
	}
	c.Process = &os.Process{Pid: rt.W.NextPid()}
	rt.W.Spawn(rt.W.Cur().Proc, "exec "+path.Base(c.Path), func() {
		c.code = run(path.Base(c.Path), c.Args[1:], c.Stderr, v)
		if v != nil && v.KillAfter {
			rt.W.Kill(rt.W.Cur().Proc)
			rt.CheckKilled()
		}
		c.finished = true
		c.done.WakeAll()
	})
	return nil
}
func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	for !c.finished {
		c.done.Wait("exec")
	}
	c.ProcessState = &os.ProcessState{Code: c.code, Killed: c.code == -1}
	if c.code != 0 {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return nil
}
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}
func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}
func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

// Pack and Unpack are the stand-ins' container format (also used by the oracles).
func Pack(kind string, b []byte) []byte {
	out := append([]byte("SIM"+kind+"\n"), b...)
	var t [8]byte
	binary.LittleEndian.PutUint32(t[:4], uint32(len(b)))
	binary.LittleEndian.PutUint32(t[4:], crc32.ChecksumIEEE(b))
	return append(out, t[:]...)
}
func Unpack(kind string, b []byte) ([]byte, error) {
	h := "SIM" + kind + "\n"
	if !strings.HasPrefix(string(b), h) || len(b) < len(h)+8 {
		return nil, errors.New("not in " + kind + " format or truncated")
	}
	body, t := b[len(h):len(b)-8], b[len(b)-8:]
	if binary.LittleEndian.Uint32(t) != uint32(len(body)) || binary.LittleEndian.Uint32(t[4:]) != crc32.ChecksumIEEE(body) {
		return nil, errors.New(kind + " data corrupt")
	}
	return body, nil
}

func run(tool string, args []string, stderr io.Writer, v *rt.Verdict) int {
	say := func(f string, a ...any) {
		if stderr != nil {
			fmt.Fprintf(stderr, tool+": "+f+"\n", a...)
		}
	}
	kind, suffix, decomp := "XZ", ".xz", false
	switch tool {
	case "true":
		return 0
	case "false":
		return 1
	case "unxz":
		decomp = true
	case "zstd":
		kind, suffix = "ZSTD", ".zst"
	case "unzstd":
		kind, suffix, decomp = "ZSTD", ".zst", true
	}
	keep, force := kind == "ZSTD", false
	var in []string
	dest := ""
	flags := true
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case !flags || !strings.HasPrefix(a, "-") || a == "-":
			in = append(in, a)
		case a == "--":
			flags = false
		case a == "-k" || a == "--keep":
			keep = true
		case a == "-f" || a == "--force":
			force = true
		case a == "--rm":
			keep = false
		case a == "-d" || a == "--decompress":
			decomp = true
		case a == "-z" || a == "--compress":
			decomp = false
		case a == "-o" && kind == "ZSTD":
			i++
			if i < len(args) {
				dest = args[i]
			}
		case a == "-T" || a == "--threads" || a == "-M":
			i++
		case a == "-c" || a == "--stdout" || a == "-t" || a == "-l":
			say("stand-in does not support %s", a)
			return 1
		case strings.HasPrefix(a, "-T"), strings.HasPrefix(a, "--"):
		default:
			// grouped short flags such as -6, -kf, -19
			for _, r := range a[1:] {
				switch r {
				case 'k':
					keep = true
				case 'f':
					force = true
				case 'd':
					decomp = true
				}
			}
		}
	}
	if len(in) == 0 {
		return 1
	}
	rc := 0
	for _, p := range in {
		if c := one(p, dest, kind, suffix, decomp, keep, force, say, v); c != 0 {
			rc = c
		}
	}
	return rc
}

func one(p, dest, kind, suffix string, decomp, keep, force bool, say func(string, ...any), v *rt.Verdict) int {
	st, err := os.Lstat(p)
	if err != nil {
		say("%s: %v", p, err)
		return 1
	}
	if st.IsDir() {
		say("%s: Is a directory, skipping", p)
		return 1
	}
	out := dest
	if out == "" {
		if decomp {
			out = strings.TrimSuffix(p, suffix)
			if out == p {
				say("%s: Filename has an unknown suffix, skipping", p)
				return 1
			}
		} else {
			if strings.HasSuffix(p, suffix) && kind == "XZ" {
				say("%s: File already has `.xz' suffix, skipping", p)
				return 2
			}
			out = p + suffix
		}
	}
	b, err := os.ReadFile(p)
	if err != nil {
		say("%s: %v", p, err)
		return 1
	}
	if _, err := os.Lstat(out); err == nil && !force {
		say("%s: File exists", out)
		return 1
	}
	var data []byte
	if decomp {
		if data, err = Unpack(kind, b); err != nil {
			say("%s: %v", p, err)
			return 1
		}
	} else {
		data = Pack(kind, b)
	}
	if force && kind == "XZ" {
		os.Remove(out)
	}
	f, err := os.OpenFile(out, stdos.O_WRONLY|stdos.O_CREATE|stdos.O_TRUNC, 0o644)
	if err != nil {
		say("%s: %v", out, err)
		return 1
	}
	fail := func(err error) int {
		say("%s: Write error: %v", out, err)
		f.Close()
		os.Remove(out)
		return 1
	}
	if v != nil && v.Short > 0 { // the tool breaks half way
		f.Write(data[:len(data)/2])
		if v.Short == 2 { // killed: leaves its partial output behind
			f.Close()
			if v.KillAfter { // together with the daemon
				rt.W.Kill(rt.W.Cur().Proc)
				rt.CheckKilled()
			}
			return -1
		}
		return fail(syscall.EIO)
	}
	for len(data) > 0 {
		n := min(len(data), 4096)
		if _, err := f.Write(data[:n]); err != nil {
			return fail(err)
		}
		data = data[n:]
		rt.W.Sleep(200e3)
	}
	if err := f.Close(); err != nil {
		return fail(err)
	}
	if !keep {
		if err := os.Remove(p); err != nil {
			say("%s: Cannot remove: %v", p, err)
			return 2
		}
	}
	return 0
}
