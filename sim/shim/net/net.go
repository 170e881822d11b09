// Package net replaces the standard package inside the simulation: unix stream sockets whose
// connections carry whole HTTP exchanges (see the http shim).
package net

import (
	"context"
	"errors"
	std "net"
	stdos "os"
	"syscall"
	"time"

	"verif.local/sim/rt"
)

// Sock is a listening socket of the simulated kernel.
type Sock struct {
	Path    string
	Node    *rt.Inode
	Closed  bool
	Full    bool // nothing more may wait to be accepted
	Backlog []*SimConn
	Owner   *rt.Proc // nil: held open by the service manager
	Q       rt.WaitQ
}

// Socks of the current world, by inode.
func table() map[*rt.Inode]*Sock {
	m, _ := rt.W.HarnessP.Data["socks"].(map[*rt.Inode]*Sock)
	if m == nil {
		m = map[*rt.Inode]*Sock{}
		rt.W.HarnessP.Data["socks"] = m
	}
	return m
}

type UnixListener struct {
	S      *Sock
	unlink bool
	closed bool
}

func (l *UnixListener) SetUnlinkOnClose(b bool)     { l.unlink = b }
func (l *UnixListener) SetDeadline(time.Time) error { return nil }
func (l *UnixListener) Addr() std.Addr              { return &std.UnixAddr{Name: l.S.Path, Net: "unix"} }
func (l *UnixListener) Close() error {
	rt.CheckKilled()
	if l.closed {
		return &std.OpError{Op: "close", Net: "unix", Err: std.ErrClosed}
	}
	l.closed = true
	if l.unlink {
		rt.W.FS.Unlink(l.S.Path)
	}
	l.S.Q.WakeAll()
	if l.S.Owner != nil {
		l.S.shut()
	}
	return nil
}
func (s *Sock) shut() {
	s.Closed = true
	for _, c := range s.Backlog {
		c.Reset()
	}
	s.Backlog = nil
	s.Q.WakeAll()
}

// Accept blocks for the next connection.
func (l *UnixListener) Accept() (std.Conn, error) {
	for {
		rt.CheckKilled()
		if l.closed || l.S.Closed {
			return nil, &std.OpError{Op: "accept", Net: "unix", Err: std.ErrClosed}
		}
		if len(l.S.Backlog) > 0 {
			i := 0
			if n := len(l.S.Backlog); n > 1 {
				i = 0
			}
			c := l.S.Backlog[i]
			l.S.Backlog = append(l.S.Backlog[:i:i], l.S.Backlog[i+1:]...)
			c.Accepted = true
			c.Server = rt.W.Cur().Proc
			if f := rt.W.OnAccept; f != nil {
				f(c.Server, l.S.Path, l.S.Node)
			}
			c.Server.OnExit = append(c.Server.OnExit, func(*rt.Proc) { c.Reset() })
			return c, nil
		}
		l.S.Q.Wait("accept")
	}
}

func newSock(path string, owner *rt.Proc) (*Sock, error) {
	n, err := rt.W.FS.Mksock(path)
	if err != nil {
		return nil, err
	}
	s := &Sock{Path: path, Node: n, Owner: owner}
	table()[n] = s
	if owner != nil {
		owner.OnExit = append(owner.OnExit, func(*rt.Proc) { s.shut() })
	}
	return s, nil
}

func Listen(network, address string) (std.Listener, error) {
	if network != "unix" {
		return nil, errors.New("simulated network: only unix sockets")
	}
	s, err := newSock(address, rt.W.Cur().Proc)
	if err != nil {
		if err == syscall.EEXIST {
			err = syscall.EADDRINUSE
		}
		return nil, &std.OpError{Op: "listen", Net: network, Addr: &std.UnixAddr{Name: address, Net: network}, Err: stdos.NewSyscallError("bind", err)}
	}
	return &UnixListener{S: s, unlink: true}, nil
}

// ListenHeld makes a socket held open by the service manager (socket activation).
func ListenHeld(path string) *Sock {
	s, err := newSock(path, nil)
	if err != nil {
		panic(err)
	}
	return s
}

// Inherit gives a process its own listener object for a held socket.
func (s *Sock) Inherit() *UnixListener { return &UnixListener{S: s, unlink: true} }

// SimConn is one connection; requests are whole objects.
type SimConn struct {
	Sock     *Sock
	Server   *rt.Proc
	Accepted bool
	Dead     bool // reset or closed
	Req      any
	Resp     any
	Err      error
	CQ       rt.WaitQ // client waits
	SQ       rt.WaitQ // server waits
	Idle     bool
	Handling bool
	Closed   bool // by the client
	Used     int
}

func (c *SimConn) Reset() {
	c.Dead = true
	if c.Err == nil {
		c.Err = syscall.ECONNRESET
	}
	c.CQ.WakeAll()
	c.SQ.WakeAll()
}
func (c *SimConn) Read(b []byte) (int, error) {
	return 0, errors.New("simulated connection: object exchange only")
}
func (c *SimConn) Write(b []byte) (int, error) {
	return 0, errors.New("simulated connection: object exchange only")
}
func (c *SimConn) Close() error                       { c.Closed = true; c.Reset(); return nil }
func (c *SimConn) LocalAddr() std.Addr                { return &std.UnixAddr{Net: "unix"} }
func (c *SimConn) RemoteAddr() std.Addr               { return &std.UnixAddr{Name: c.Sock.Path, Net: "unix"} }
func (c *SimConn) SetDeadline(t time.Time) error      { return nil }
func (c *SimConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *SimConn) SetWriteDeadline(t time.Time) error { return nil }

func Dial(network, address string) (std.Conn, error) {
	rt.W.Yield()
	fail := func(e error) (std.Conn, error) {
		return nil, &std.OpError{Op: "dial", Net: network, Addr: &std.UnixAddr{Name: address, Net: network}, Err: stdos.NewSyscallError("connect", e)}
	}
	if network != "unix" {
		return fail(syscall.ENETUNREACH)
	}
	n := rt.W.FS.Lookup(address)
	if n == nil {
		return fail(syscall.ENOENT)
	}
	s := table()[n]
	if s == nil || s.Closed {
		return fail(syscall.ECONNREFUSED)
	}
	if s.Full {
		return fail(syscall.EAGAIN)
	}
	c := &SimConn{Sock: s}
	s.Backlog = append(s.Backlog, c)
	s.Q.WakeAll()
	return c, nil
}
func DialTimeout(network, address string, d time.Duration) (std.Conn, error) {
	return Dial(network, address)
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (std.Conn, error) { return Dial(network, address) }
func (d *Dialer) DialContext(_ context.Context, network, address string) (std.Conn, error) {
	return Dial(network, address)
}
