// Package cdn connects the real Cloudflare client library to the simulated network: calls that
// make a client get an extra option, which replaces the transport under the library's HTTP client.
package cdn

import (
	"bytes"
	"errors"
	"io"
	"math"
	"net/http"
	"time"

	"github.com/cloudflare/cloudflare-go"

	"verif.local/sim/rt"
	simctx "verif.local/sim/shim/context"
)

// Sim is appended to the options of every client. The library's own retries sleep in real time,
// so they are made here instead, by its rules (three more attempts after 1, 2 and 4 s).
func Sim() cloudflare.Option {
	return func(api *cloudflare.API) error {
		if err := cloudflare.UsingRetryPolicy(0, 0, 0)(api); err != nil {
			return err
		}
		if err := cloudflare.UsingRateLimit(math.MaxFloat64)(api); err != nil {
			return err
		}
		return cloudflare.HTTPClient(&http.Client{Transport: wire{}})(api)
	}
}

type wire struct{}

func (wire) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	if rt.W.OnWeb == nil {
		return nil, errors.New("no route to host")
	}
	r, err := attempts(req, body)
	rt.W.OnWebEnd(r, err)
	rt.W.Yield()
	if err != nil {
		return nil, err
	}
	return &http.Response{Status: http.StatusText(r.Code), StatusCode: r.Code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(bytes.NewReader(r.Reply)), ContentLength: int64(len(r.Reply)), Request: req}, nil
}

func attempts(req *http.Request, body []byte) (*rt.WebCall, error) {
	pause := int64(time.Second)
	for try := 0; ; try++ {
		rt.W.Yield()
		r := &rt.WebCall{Method: req.Method, URL: req.URL.String(), Auth: req.Header.Get("Authorization"), Body: body}
		rt.W.OnWeb(r)
		if r.Wait > 0 || r.Forever {
			if err := wait(req, r.Wait, r.Forever); err != nil {
				return r, err
			}
		}
		if try < 3 && (r.Err != nil || r.Code == 429 || r.Code >= 500) {
			if err := wait(req, pause, false); err != nil {
				return r, err
			}
			pause *= 2
			continue
		}
		return r, r.Err
	}
}

// wait returns early, with an error, when the request is given up.
func wait(req *http.Request, d int64, forever bool) error {
	t := make(chan struct{})
	if !forever {
		tm := rt.W.After(d, func() { rt.CloseNow(t) })
		defer tm.Stop()
	}
	if rt.Select(false, rt.CR(t), rt.CR(req.Context().Done())) == 1 {
		return simctx.DeadlineExceeded
	}
	return nil
}
