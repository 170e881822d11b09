// Package http replaces net/http inside the simulation. Requests, responses, headers and
// handlers are the real types; the server's accept loop, connection life cycle and the client
// transport are simulated.
package http

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	stdnet "net"
	std "net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/rt"
	simctx "verif.local/sim/shim/context"
	"verif.local/sim/shim/net"
)

// Server ------------------------------------------------------------------------------------

type Server struct {
	Addr                         string
	Handler                      std.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	ErrorLog                     *log.Logger
	BaseContext                  func(stdnet.Listener) context.Context
	ConnContext                  func(ctx context.Context, c stdnet.Conn) context.Context
	ConnState                    func(stdnet.Conn, std.ConnState)

	down      bool
	listeners []stdnet.Listener
	conns     []*sconn
	onDown    []func()
}

type sconn struct {
	c     *net.SimConn
	state string // new active idle
	since int64
}

func (s *Server) RegisterOnShutdown(f func()) { s.onDown = append(s.onDown, f) }
func (s *Server) SetKeepAlivesEnabled(v bool) {}
func (s *Server) ListenAndServe() error {
	l, err := net.Listen("tcp", s.Addr)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

func (s *Server) Serve(l stdnet.Listener) error {
	rt.W.Yield()
	defer l.Close()
	if s.down {
		return std.ErrServerClosed
	}
	s.listeners = append(s.listeners, l)
	for {
		c, err := l.Accept()
		if err != nil {
			if s.down {
				return std.ErrServerClosed
			}
			return err
		}
		sc := &sconn{c: c.(*net.SimConn), state: "new", since: rt.W.Now()}
		s.conns = append(s.conns, sc)
		rt.W.Spawn(rt.W.Cur().Proc, "http conn", func() { s.serve(sc) })
		rt.W.Yield()
	}
}

func (s *Server) drop(sc *sconn) {
	for i, x := range s.conns {
		if x == sc {
			s.conns = append(s.conns[:i:i], s.conns[i+1:]...)
			break
		}
	}
	sc.c.Reset()
}

func (s *Server) serve(sc *sconn) {
	c := sc.c
	for {
		for c.Req == nil && !c.Dead {
			c.SQ.Wait("http request")
		}
		if c.Dead {
			s.drop(sc)
			return
		}
		raw := c.Req.(*RawRequest)
		c.Req = nil
		sc.state = "active"
		raw.Began = true
		resp, ok := s.handle(raw, c)
		if !ok {
			s.drop(sc)
			return
		}
		if c.Dead {
			s.drop(sc)
			return
		}
		c.Resp = resp
		sc.state, sc.since = "idle", rt.W.Now()
		c.CQ.WakeAll()
		rt.W.Yield()
		if s.down || resp.close {
			s.drop(sc)
			return
		}
	}
}

// RawRequest is a request as it arrives on the wire.
type RawRequest struct {
	Method string
	URI    string
	Host   string
	Header std.Header
	Body   []byte
	Cut    bool // the body ends before Content-Length bytes
	Began  bool
}

type rawResponse struct {
	code   int
	header std.Header
	body   []byte
	cl     int64
	close  bool
}

type body struct {
	*bytes.Reader
	cut bool
}

func (b *body) Read(p []byte) (int, error) {
	if rt.InSim() {
		rt.W.Yield()
	}
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.cut {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (b *body) Close() error { return nil }

type writer struct {
	h     std.Header
	snap  std.Header
	code  int
	buf   bytes.Buffer
	flush bool
}

func (w *writer) Header() std.Header { return w.h }
func (w *writer) WriteHeader(c int) {
	rt.CheckKilled()
	if c < 100 || c > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", c))
	}
	if w.code != 0 || c < 200 {
		return
	}
	w.code = c
	w.snap = w.h.Clone()
}
func (w *writer) Write(b []byte) (int, error) {
	rt.W.Yield()
	if w.code == 0 {
		w.WriteHeader(200)
	}
	return w.buf.Write(b)
}
func (w *writer) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *writer) Flush()                            { w.flush = true }

func (s *Server) handle(raw *RawRequest, c *net.SimConn) (out *rawResponse, ok bool) {
	bad := func(code int) (*rawResponse, bool) {
		return &rawResponse{code: code, header: std.Header{"Content-Type": {"text/plain; charset=utf-8"}}, body: []byte(strconv.Itoa(code) + " " + std.StatusText(code)), cl: -1, close: true}, true
	}
	u, err := url.ParseRequestURI(raw.URI)
	if err != nil || raw.Host == "" {
		return bad(400)
	}
	ctx, cancel := simctx.WithCancel(context.WithValue(context.Background(), std.LocalAddrContextKey, c.LocalAddr()))
	req := (&std.Request{Method: raw.Method, URL: u, RequestURI: raw.URI, Host: raw.Host, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: raw.Header.Clone(), RemoteAddr: "@", ContentLength: int64(len(raw.Body))}).WithContext(ctx)
	if req.Header == nil {
		req.Header = std.Header{}
	}
	if len(raw.Body) == 0 && !raw.Cut {
		req.Body = std.NoBody
	} else {
		req.Body = &body{bytes.NewReader(raw.Body), raw.Cut}
	}
	w := &writer{h: std.Header{}}
	defer func() {
		if r := recover(); r != nil {
			// As net/http: a panicking handler costs its connection only.
			rt.W.Stats["handler panic"]++
			rt.W.Tracef("http: panic serving %s %s: %v", raw.Method, raw.URI, r)
			if hook := rt.W.OnHandlerPanic; hook != nil {
				hook(fmt.Sprint(r))
			}
			out, ok = nil, false
		}
	}()
	s.Handler.ServeHTTP(w, req)
	cancel()
	if w.code == 0 {
		w.WriteHeader(200)
	}
	r := &rawResponse{code: w.code, header: w.snap, body: append([]byte(nil), w.buf.Bytes()...), cl: -1}
	if v := r.header.Get("Content-Length"); v != "" {
		r.cl, _ = strconv.ParseInt(v, 10, 64)
	} else if !w.flush && len(r.body) <= 2048 {
		r.cl = int64(len(r.body))
	}
	if r.header.Get("Content-Type") == "" && len(r.body) > 0 {
		r.header.Set("Content-Type", std.DetectContentType(r.body))
	}
	return r, true
}

func (s *Server) closeListeners() error {
	var e error
	for _, l := range s.listeners {
		if err := l.Close(); err != nil && e == nil {
			e = err
		}
	}
	s.listeners = nil
	return e
}

// Close closes everything at once.
func (s *Server) Close() error {
	rt.CheckKilled()
	s.down = true
	e := s.closeListeners()
	for _, c := range append([]*sconn(nil), s.conns...) {
		s.drop(c)
	}
	return e
}

// Shutdown waits for active connections, as net/http does (a nil context only works when there
// is nothing to wait for).
func (s *Server) Shutdown(ctx context.Context) error {
	rt.W.Yield()
	s.down = true
	e := s.closeListeners()
	for _, f := range s.onDown {
		rt.Go(f)
	}
	wait := int64(1e6)
	for {
		quiet := true
		for _, c := range append([]*sconn(nil), s.conns...) {
			if c.state == "idle" || c.state == "new" && rt.W.Now()-c.since > 5e9 {
				s.drop(c)
				continue
			}
			quiet = false
		}
		if quiet {
			return e
		}
		done := ctx.Done() // panics when ctx is nil
		t := make(chan struct{})
		rt.W.After(wait, func() { rt.CloseNow(t) })
		if rt.Select(false, rt.CR(t), rt.CR(done)) == 1 {
			return ctx.Err()
		}
		if wait *= 2; wait > 500e6 {
			wait = 500e6
		}
	}
}

func Serve(l stdnet.Listener, h std.Handler) error { return (&Server{Handler: h}).Serve(l) }
func ListenAndServe(addr string, h std.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

// Client ------------------------------------------------------------------------------------

type Transport struct {
	Proxy                  func(*std.Request) (*url.URL, error)
	Dial                   func(network, addr string) (stdnet.Conn, error)
	DialContext            func(ctx context.Context, network, addr string) (stdnet.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool

	idle []idleConn
}

type idleConn struct {
	c     *net.SimConn
	since int64
}

func (t *Transport) CloseIdleConnections() {
	rt.CheckKilled()
	for _, i := range t.idle {
		i.c.Close()
	}
	t.idle = nil
}

func (t *Transport) get(ctx context.Context) (*net.SimConn, error) {
	for len(t.idle) > 0 {
		i := t.idle[len(t.idle)-1]
		t.idle = t.idle[:len(t.idle)-1]
		if i.c.Dead || t.IdleConnTimeout > 0 && rt.W.Now()-i.since > int64(t.IdleConnTimeout) {
			i.c.Close()
			continue
		}
		return i.c, nil
	}
	var c stdnet.Conn
	var err error
	switch {
	case t.DialContext != nil:
		c, err = t.DialContext(ctx, "tcp", "localhost:0")
	case t.Dial != nil:
		c, err = t.Dial("tcp", "localhost:0")
	default:
		err = errors.New("simulated network: no dialer")
	}
	if err != nil {
		return nil, err
	}
	return c.(*net.SimConn), nil
}

// ErrTimeout is what a client's Timeout produces.
var ErrTimeout error = timeoutErr{}

type timeoutErr struct{}

func (timeoutErr) Error() string {
	return "context deadline exceeded (Client.Timeout exceeded while awaiting headers)"
}
func (timeoutErr) Timeout() bool { return true }

// A Record is one request of a process whose Data has an "http" list, and the answer to it.
type Record struct {
	Method, URI string
	Body        []byte
	Code        int // 0: no answer
	Reply       []byte
	Location    string
}

// Exchange sends one raw request and waits for the answer.
func (t *Transport) Exchange(ctx context.Context, raw *RawRequest, deadline int64) (*rawResponse, error) {
	c, err := t.get(ctx)
	if err != nil {
		return nil, err
	}
	if c.Dead {
		return nil, c.Err
	}
	expired := false
	if deadline > 0 {
		tm := rt.W.After(deadline-rt.W.Now(), func() { expired = true; c.CQ.WakeAll() })
		defer tm.Stop()
	}
	rec := &Record{Method: raw.Method, URI: raw.URI, Body: raw.Body}
	if rt.W.Cur().Proc.Data["http"] != nil {
		rt.W.Cur().Proc.Data["http"] = append(rt.W.Cur().Proc.Data["http"].([]*Record), rec)
	}
	c.Resp = nil
	c.Req = raw
	c.Used++
	c.SQ.WakeAll()
	rt.W.Yield()
	for c.Resp == nil && !c.Dead && !expired {
		c.CQ.Wait("http response")
	}
	if c.Resp != nil {
		r := c.Resp.(*rawResponse)
		c.Resp = nil
		rec.Code, rec.Reply, rec.Location = r.code, r.body, r.header.Get("Location")
		if t.DisableKeepAlives || r.close {
			c.Close()
		} else {
			t.idle = append(t.idle, idleConn{c, rt.W.Now()})
		}
		return r, nil
	}
	if expired && !c.Dead {
		c.Close()
		return nil, ErrTimeout
	}
	if c.Err != nil {
		return nil, io.EOF
	}
	return nil, io.EOF
}

func (t *Transport) RoundTrip(req *std.Request) (*std.Response, error) { return t.roundTrip(req, 0) }

func (t *Transport) roundTrip(req *std.Request, deadline int64) (*std.Response, error) {
	raw := &RawRequest{Method: req.Method, URI: req.URL.RequestURI(), Host: req.Host, Header: req.Header.Clone()}
	if raw.Host == "" {
		raw.Host = req.URL.Host
	}
	if raw.Method == "" {
		raw.Method = "GET"
	}
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		raw.Body = b
	}
	r, err := t.Exchange(req.Context(), raw, deadline)
	if err != nil {
		return nil, err
	}
	return r.response(req), nil
}

func (r *rawResponse) response(req *std.Request) *std.Response {
	res := &std.Response{StatusCode: r.code, Status: fmt.Sprintf("%d %s", r.code, std.StatusText(r.code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: r.header.Clone(), Body: io.NopCloser(bytes.NewReader(r.body)), ContentLength: r.cl, Request: req}
	if r.cl < 0 {
		res.TransferEncoding = []string{"chunked"}
	}
	return res
}

type Client struct {
	Transport     std.RoundTripper
	CheckRedirect func(req *std.Request, via []*std.Request) error
	Jar           std.CookieJar
	Timeout       time.Duration
}

var DefaultTransport std.RoundTripper = &Transport{}
var DefaultClient = &Client{}

func (c *Client) CloseIdleConnections() {
	if t, ok := c.Transport.(*Transport); ok {
		t.CloseIdleConnections()
	}
}

func (c *Client) Do(req *std.Request) (*std.Response, error) {
	var tr std.RoundTripper = c.Transport
	if tr == nil {
		tr = DefaultTransport
	}
	var deadline int64
	if c.Timeout > 0 {
		deadline = rt.W.Now() + int64(c.Timeout)
	}
	method := req.Method
	for n := 0; ; n++ {
		var res *std.Response
		var err error
		if t, ok := tr.(*Transport); ok {
			res, err = t.roundTrip(req, deadline)
		} else {
			res, err = tr.RoundTrip(req)
		}
		if err != nil {
			m := req.Method
			if m == "" {
				m = "GET"
			}
			return nil, &url.Error{Op: m[:1] + strings.ToLower(m[1:]), URL: req.URL.String(), Err: err}
		}
		keep := false
		switch res.StatusCode {
		case 301, 302, 303:
			if method != "GET" && method != "HEAD" {
				method = "GET"
			}
		case 307, 308:
			keep = true
		default:
			return res, nil
		}
		loc := res.Header.Get("Location")
		if loc == "" {
			return res, nil
		}
		u, err := req.URL.Parse(loc)
		if err != nil {
			return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
		}
		if n >= 9 {
			return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: errors.New("stopped after 10 redirects")}
		}
		next := &std.Request{Method: method, URL: u, Header: req.Header.Clone(), Host: u.Host, Response: res, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
		next = next.WithContext(req.Context())
		if keep && req.GetBody != nil {
			if next.Body, err = req.GetBody(); err != nil {
				return nil, err
			}
			next.GetBody = req.GetBody
			next.ContentLength = req.ContentLength
		}
		req = next
	}
}
func (c *Client) Get(u string) (*std.Response, error) {
	req, err := std.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}
func (c *Client) Head(u string) (*std.Response, error) {
	req, err := std.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}
func (c *Client) Post(u, ct string, b io.Reader) (*std.Response, error) {
	req, err := std.NewRequest("POST", u, b)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", ct)
	return c.Do(req)
}
func (c *Client) PostForm(u string, v url.Values) (*std.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(v.Encode()))
}
func Get(u string) (*std.Response, error)                    { return DefaultClient.Get(u) }
func Head(u string) (*std.Response, error)                   { return DefaultClient.Head(u) }
func Post(u, ct string, b io.Reader) (*std.Response, error)  { return DefaultClient.Post(u, ct, b) }
func PostForm(u string, v url.Values) (*std.Response, error) { return DefaultClient.PostForm(u, v) }

// Raw performs one raw exchange on a fresh connection (for harness clients).
func Raw(sock string, raw *RawRequest, timeout time.Duration) (code int, body []byte, err error) {
	t := &Transport{DisableKeepAlives: true, DialContext: func(context.Context, string, string) (stdnet.Conn, error) { return net.Dial("unix", sock) }}
	var dl int64
	if timeout > 0 {
		dl = rt.W.Now() + int64(timeout)
	}
	r, err := t.Exchange(context.Background(), raw, dl)
	if err != nil {
		return 0, nil, err
	}
	return r.code, r.body, nil
}
