package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"verifsim/plan"
)

// obsBody observes how a response body is used.
type obsBody struct {
	e       *Env
	rc      io.ReadCloser
	what    string
	n       int
	eof     bool
	err     error // first read error that is not EOF
	closed  int
	closeAt time.Duration
	inRead  int
	overlap bool
	late    int // reads after close
	OnClose func()
}

func (b *obsBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.late++
	}
	b.inRead++
	if b.inRead > 1 {
		b.overlap = true
	}
	n, err := b.rc.Read(p)
	b.inRead--
	b.n += n
	if err == io.EOF {
		b.eof = true
	} else if err != nil && b.err == nil {
		b.err = err
	}
	return n, err
}

func (b *obsBody) Close() error {
	b.closed++
	if b.closed == 1 {
		b.closeAt = b.e.Now()
		b.e.Logf("body of %s closed after %d bytes eof=%v err=%v", b.what, b.n, b.eof, b.err)
		if b.OnClose != nil {
			b.OnClose()
		}
	}
	return b.rc.Close()
}

// drained reports what is wrong with the way the body was used up.
func (b *obsBody) drained() string {
	switch {
	case b.closed == 0:
		return fmt.Sprintf("the body of %s is never closed", b.what)
	case !b.eof && b.err == nil:
		return fmt.Sprintf("the body of %s is closed after %d bytes without having been read to its end", b.what, b.n)
	}
	return ""
}

// script answers one request as the attempt says, without a network.
func script(e *Env, req *http.Request, a plan.Attempt, ok []byte, hdr http.Header, seed uint64) (*http.Response, error) {
	ctx := req.Context()
	fail := func(err error) (*http.Response, error) {
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	lat := a.Lat
	if a.Kind == "hang" {
		lat += 20_000_000
	}
	if err := sleepCtx(ctx, us(lat)); err != nil {
		return fail(err)
	}
	body := func(data []byte, end error) io.ReadCloser {
		return &stubBody{ctx: ctx, data: data, end: end, slow: us(a.Slow), piece: 1 << (4 + seed%9), seed: seed}
	}
	mk := func(code int, rc io.ReadCloser, n int) *http.Response {
		r := response(req, code, rc, int64(n))
		for k, v := range hdr {
			r.Header[k] = v
		}
		return r
	}
	switch a.Kind {
	case "ok":
		return mk(200, body(ok, io.EOF), len(ok)), nil
	case "redirect":
		q := *req
		u := *req.URL
		u.Path += "/moved"
		q.URL = &u
		r := mk(200, body(ok, io.EOF), len(ok))
		r.Request = &q
		e.Fault("redirect")
		return r, nil
	case "trunc":
		e.Fault("body-truncated")
		return mk(200, body(ok[:len(ok)*a.Cut/1000], newErr("connection broke off", a.Code == 1)), len(ok)), nil
	case "status":
		if a.Code >= 400 {
			e.Fault("status-" + itoa(a.Code))
		}
		data := []byte(strings.Repeat("error page ", a.Body/11))
		return mk(a.Code, body(data, io.EOF), len(data)), nil
	case "errresp":
		e.Fault("error-with-response")
		data := []byte(strings.Repeat("partial ", a.Body/8+1))
		return mk(200, body(data, io.EOF), len(data)), &url.Error{Op: "Get", URL: req.URL.String(), Err: newErr("client error with response", a.Code == 1)}
	case "hang":
		e.Fault("hang")
		return fail(newErr("timed out", false))
	}
	e.Fault("net-" + a.Kind)
	return fail(netErr(a.Kind, req.URL.Host))
}

// serveScript answers one request on a simulated connection as the attempt
// says; it reports whether the connection stays open.
func serveScript(e *Env, c *conn, path string, a plan.Attempt, ok []byte, hdr []string) bool {
	time.Sleep(us(a.Lat))
	switch a.Kind {
	case "ok":
		return writeResp(c, 200, hdr, ok, a.Frame, 1000, a.Slow)
	case "redirect":
		e.Fault("redirect")
		return writeResp(c, 302, []string{"Location: " + path + "/moved"}, nil, 0, 1000, 0)
	case "trunc":
		e.Fault("body-truncated")
		return writeResp(c, 200, hdr, ok, a.Frame, min(a.Cut, 990), a.Slow)
	case "status":
		if a.Code >= 400 {
			e.Fault("status-" + itoa(a.Code))
		}
		return writeResp(c, a.Code, hdr, []byte(strings.Repeat("error page ", a.Body/11)), a.Frame, 1000, a.Slow)
	case "hang":
		e.Fault("hang")
		time.Sleep(40 * time.Second)
		return false
	}
	e.Fault("net-" + a.Kind)
	c.Reset()
	return false
}

// dialFault injects failures that happen before a request reaches a server.
type dialFault struct {
	e    *Env
	next http.RoundTripper
	get  func(*http.Request) *plan.Attempt
}

func (f dialFault) RoundTrip(req *http.Request) (*http.Response, error) {
	if a := f.get(req); a != nil {
		switch a.Kind {
		case "refuse", "dns", "dnstemp", "timeout", "temp", "perm":
			if err := sleepCtx(req.Context(), us(a.Lat)); err != nil {
				return nil, err
			}
			f.e.Fault("net-" + a.Kind)
			return nil, netErr(a.Kind, req.URL.Host)
		}
	}
	return f.next.RoundTrip(req)
}

// twoInts parses "a/b".
func twoInts(s string) (int, int, bool) {
	x, y, ok := strings.Cut(s, "/")
	if !ok {
		return 0, 0, false
	}
	a, e1 := strconv.Atoi(x)
	b, e2 := strconv.Atoi(y)
	return a, b, e1 == nil && e2 == nil
}

// ctxFor makes the context of a call that is cancelled at a simulated time:
// us == 0 never, -1 before the call.
func ctxFor(e *Env, cancelUs int64, deadline bool) (ctx context.Context, cancel context.CancelFunc, at time.Duration) {
	at = -1
	switch {
	case cancelUs < 0:
		ctx, cancel = context.WithCancel(context.Background())
		cancel()
		if mix(e.P.Seed, uint64(e.Now()))%2 == 1 {
			ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
		}
		at = e.Now()
	case cancelUs > 0 && deadline:
		ctx, cancel = context.WithTimeout(context.Background(), us(int(cancelUs)))
		at = e.Now() + us(int(cancelUs))
	case cancelUs > 0:
		ctx, cancel = context.WithCancel(context.Background())
		at = e.Now() + us(int(cancelUs))
		c := cancel
		time.AfterFunc(us(int(cancelUs)), c)
	default:
		ctx, cancel = context.WithCancel(context.Background())
	}
	return
}
