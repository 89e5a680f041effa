package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/yields/ant"
	"github.com/yields/ant/antcache"
	"verifsim/plan"
)

func init() { worlds["crawl"] = crawlWorld }

// simErr is an error produced by the harness; every instance is distinct.
type simErr struct {
	what string
	temp bool
}

func (e *simErr) Error() string { return "sim: " + e.what }

type tempErr struct{ simErr }

func (e *tempErr) Temporary() bool { return true }

func newErr(what string, temp bool) error {
	if temp {
		return &tempErr{simErr{what, true}}
	}
	return &simErr{what, false}
}

type pageRun struct {
	key      string
	reqs     int // engine requests so far (first attempts and retries)
	served   int
	limited  int // completed Limit calls
	limiting int
	inScrape int
	scrapes  int
	okScr    int
	temps    int
	active   bool
	final    string // outcome of the last finished fetch
}

type hostRun struct {
	robotsReqs int
	okAt       []time.Duration // completion times of successful robots fetches
	okVer      []int
	startAt    []time.Duration
	firstReqs  []time.Duration // first attempts of page requests
}

type crawlRun struct {
	e      *Env
	c      *plan.Crawl
	s      site
	net    *simNet
	eng    *ant.Engine
	shared map[int]ant.URLs
	pages  []*pageRun
	byKey  map[string]int
	hosts  map[string]*hostRun
	hostIx map[string]int

	ctx        context.Context
	cancel     context.CancelFunc
	cancelled  bool
	cancelAt   time.Duration
	failed     bool // a genuine (fatal) failure was delivered to the engine
	failAt     time.Duration
	failStep   int
	errs       []error // genuine errors delivered
	tempScr    int
	tempDed    int
	timedOut   bool
	events     int
	returned   bool
	retAt      time.Duration
	err        error
	inCalls    int
	peakCalls  int
	nactive    int
	started    time.Duration
	levels     map[int]int // current scrapes per level
	levelPeak  map[int]int
	bodies     []*trackBody
	limCalls   int
	dedCalls   int
	enqCalls   int
	closeCalls int
	deqCalls   int
	unknown    map[string]int
	match      func(key string) bool
	late       bool
	limitedAt  []limEvent
	maxTry     int
}

// ev is called at every observable event; it drives event-based cancellation.
func (r *crawlRun) ev(f string, a ...any) {
	r.expired()
	r.e.Logf(f, a...)
	r.events++
	if r.c.CancelEv > 0 && r.events == r.c.CancelEv && !r.returned {
		r.doCancel("cancel-at-event")
	}
}

// expired notices that the deadline has passed.
func (r *crawlRun) expired() {
	if r.c.Deadline && r.ctx != nil && r.ctx.Err() != nil && !r.cancelled && !r.returned {
		r.cancelled, r.cancelAt = true, min(r.e.Now(), r.started+us(int(r.c.CancelUs)))
		r.e.Fault("deadline")
	}
}

func (r *crawlRun) doCancel(kind string) {
	if r.returned || r.cancelled {
		return
	}
	r.cancelled = true
	r.cancelAt = r.e.Now()
	r.e.Fault(kind)
	r.cancel()
}

// deliver records a genuine error handed to the engine.
func (r *crawlRun) deliver(err error, fatal bool) error {
	r.errs = append(r.errs, err)
	if fatal && !r.failed {
		r.failed = true
		r.failAt = r.e.Now()
		r.e.Logf("genuine failure: %v", err)
	}
	return err
}

// enter and leave bracket every call the engine makes into the harness.
func (r *crawlRun) enter(what string, i int) {
	if r.returned {
		r.late = true
		r.e.Violate("C03", "late", "%s started for page %d %v after the crawl had returned", what, i, r.e.Now()-r.retAt)
		r.e.Violate("C05", "late", "%s started for page %d after the crawl had returned", what, i)
	}
	if r.inCalls++; r.inCalls > r.peakCalls {
		r.peakCalls = r.inCalls
	}
	if n := r.c.Conc; n > 0 && r.inCalls > n {
		r.e.Violate("C05", "limit", "%d URLs are processed at once, the limit is %d (%s of page %d)", r.inCalls, n, what, i)
	}
	if r.failed || r.cancelled {
		at := r.failAt
		if !r.failed || r.cancelled && r.cancelAt < at {
			at = r.cancelAt
		}
		if r.e.Now()-at > r.slack() {
			r.e.Violate("C03", "continues", "%s of page %d starts %v after the failure or cancellation", what, i, r.e.Now()-at)
			if r.failed {
				r.e.Violate("C04", "continues", "%s of page %d starts %v after the failure", what, i, r.e.Now()-at)
			}
		}
	}
}

func (r *crawlRun) leave() { r.inCalls-- }

func (r *crawlRun) activate(i int) {
	if i < 0 || r.pages[i].active {
		return
	}
	r.pages[i].active = true
	r.nactive++
	if n := r.c.Conc; n > 0 && r.nactive > n && !r.failed && !r.cancelled {
		r.e.Violate("C05", "limit", "%d URLs are being processed at once, the limit is %d (page %d)", r.nactive, n, i)
	}
}

func (r *crawlRun) deactivate(i int) {
	if i >= 0 && r.pages[i].active {
		r.pages[i].active = false
		r.nactive--
	}
}

// slack bounds how long a crawl may take to stop.
func (r *crawlRun) slack() time.Duration {
	d := 2*time.Second + maxDrain + time.Duration(runtime.SimStallNano())
	if r.c.ScrIdle {
		m := 0
		for _, p := range r.c.Pages {
			m = max(m, p.ScrLat)
		}
		d += us(m)
	}
	return d
}

func sleepCtx(ctx context.Context, d time.Duration) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if d <= 0 {
		return nil
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

// trackBody observes how a response body is used.
type trackBody struct {
	r      *crawlRun
	rc     io.ReadCloser
	page   int // -1: robots.txt
	what   string
	n      int
	eof    bool
	errd   bool
	closed bool
	empty  bool
}

func (b *trackBody) Read(p []byte) (int, error) {
	n, err := b.rc.Read(p)
	b.n += n
	if err == io.EOF {
		b.eof = true
	} else if err != nil {
		b.errd = true
		if b.page < 0 && !isCtx(err) {
			b.r.deliver(err, true)
		}
	}
	return n, err
}

func (b *trackBody) Close() error {
	r := b.r
	if !b.closed {
		b.closed = true
		r.e.Logf("body of %s closed after %d bytes eof=%v err=%v", b.what, b.n, b.eof, b.errd)
		if !b.eof && !b.errd && !b.empty {
			r.e.Violate("C11", "undrained", "the body of %s is closed after %d bytes without having been read to its end", b.what, b.n)
		}
		if b.page >= 0 && r.pages[b.page].inScrape > 0 && !parsedMode(r.c.Pages[b.page].ScrMode) {
			r.e.Violate("C11", "closed-in-scrape", "the body of %s is closed while its page is being scraped", b.what)
		}
	}
	return b.rc.Close()
}

func isCtx(err error) bool {
	return errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)
}

func parsedMode(m int) bool { return m == 0 || m == 1 || m == 5 || m == 6 }

// stubBody is a scripted response body.
type stubBody struct {
	ctx   context.Context
	data  []byte
	slow  time.Duration
	end   error
	piece int
	seed  uint64
	n     uint64
	slept time.Duration
}

// maxDrain bounds how long it takes to read a slow body to its end.
const maxDrain = time.Second

func (b *stubBody) Read(p []byte) (int, error) {
	d := b.slow
	if b.slept+d > maxDrain {
		d = 0
	}
	b.slept += d
	if err := sleepCtx(b.ctx, d); err != nil {
		return 0, err
	}
	if len(b.data) == 0 {
		return 0, b.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if b.piece > 0 {
		b.n++
		n = min(n, 1+int(mix(b.seed, b.n)%uint64(b.piece)))
	}
	n = copy(p[:n], b.data)
	b.data = b.data[n:]
	if len(b.data) == 0 && mix(b.seed, 99)%3 == 0 && b.end == io.EOF {
		return n, io.EOF
	}
	return n, nil
}

func (b *stubBody) Close() error { return nil }

func netErr(kind, addr string) error {
	switch kind {
	case "refuse":
		return opErr("dial", addr, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case "dns":
		return opErr("dial", addr, &net.DNSError{Err: "no such host", Name: addr, IsNotFound: true})
	case "dnstemp":
		return opErr("dial", addr, &net.DNSError{Err: "server misbehaving", Name: addr, IsTemporary: true})
	case "timeout":
		return opErr("dial", addr, os.NewSyscallError("connect", syscall.ETIMEDOUT))
	case "reset":
		return opErr("read", addr, os.NewSyscallError("read", syscall.ECONNRESET))
	case "temp":
		return newErr("temporary network failure", true)
	}
	return newErr("network failure "+kind, false)
}

// isTemp is the documented meaning of a temporary error: some error in the
// chain says so.
func isTemp(err error) bool {
	var t interface{ Temporary() bool }
	for err != nil {
		if !errors.As(err, &t) {
			return false
		}
		if t.Temporary() {
			return true
		}
		err = errors.Unwrap(t.(error))
	}
	return false
}

func (r *crawlRun) attempt(i, n int) plan.Attempt {
	a := r.c.Pages[i].Attempts
	if len(a) == 0 {
		return plan.Attempt{Kind: "ok"}
	}
	return a[min(n, len(a)-1)]
}

func response(req *http.Request, code int, body io.ReadCloser, n int64) *http.Response {
	return &http.Response{
		Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), StatusCode: code,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"text/html; charset=utf-8"}},
		Body:   body, ContentLength: n, Request: req,
	}
}

// hitClient observes what the cache in front of the client answers.
type hitClient struct {
	r     *crawlRun
	inner ant.Client
}

func (h hitClient) Do(req *http.Request) (*http.Response, error) {
	resp, err := h.inner.Do(req)
	if err == nil && resp.Header.Get("X-From-Cache") != "" {
		h.r.e.Probe("page-from-cache")
	}
	return resp, err
}

// cacheHdr makes pages storable.
func (r *crawlRun) cacheHdr() []string {
	if r.c.Cache == "" {
		return nil
	}
	return []string{"Cache-Control: max-age=3600", "Date: " + time.Now().UTC().Format(http.TimeFormat)}
}

// stubDo answers an engine request without a network.
func (r *crawlRun) stubDo(req *http.Request, i, n int) (*http.Response, error) {
	ctx := req.Context()
	fail := func(err error) (*http.Response, error) {
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	if i < 0 {
		if err := sleepCtx(ctx, time.Millisecond); err != nil {
			return fail(err)
		}
		b := []byte("not found")
		return response(req, 404, &stubBody{ctx: ctx, data: b, end: io.EOF}, int64(len(b))), nil
	}
	p := r.c.Pages[i]
	a := r.attempt(i, n)
	lat := a.Lat
	if a.Kind == "ok" || a.Kind == "redirect" {
		lat += p.Lat
	}
	if a.Kind == "hang" {
		lat += 20_000_000
	}
	if err := sleepCtx(ctx, us(lat)); err != nil {
		return fail(err)
	}
	seed := mix(r.e.P.Seed, uint64(i), uint64(n))
	body := func(data []byte, end error, slow int) io.ReadCloser {
		return &stubBody{ctx: ctx, data: data, end: end, slow: us(slow), piece: 1 << (4 + seed%9), seed: seed}
	}
	switch a.Kind {
	case "ok", "redirect", "trunc":
		data := r.s.html(i)
		q := *req
		response := func(req *http.Request, code int, body io.ReadCloser, n int64) *http.Response {
			resp := response(req, code, body, n)
			for _, l := range r.cacheHdr() {
				hdrAdd(resp.Header, l)
			}
			return resp
		}
		if a.Kind == "redirect" {
			r.e.Fault("redirect")
			u := *req.URL
			u.Path, u.RawPath, u.RawQuery = "/__r/"+strconv.Itoa(i), "", ""
			q.URL = &u
		}
		if a.Kind == "trunc" {
			r.e.Fault("body-truncated")
			return response(&q, 200, body(data[:len(data)*a.Cut/1000], r.deliverBody(i), a.Slow), int64(len(data))), nil
		}
		return response(&q, 200, body(data, io.EOF, a.Slow+p.Slow), int64(len(data))), nil
	case "status":
		r.e.Fault("status-" + strconv.Itoa(a.Code))
		data := bytes.Repeat([]byte("error page "), a.Body/11+1)
		if a.Body == 0 {
			data = nil
		}
		return response(req, a.Code, body(data, io.EOF, a.Slow), int64(len(data))), nil
	case "errresp": // an error together with a response
		r.e.Fault("error-with-response")
		data := bytes.Repeat([]byte("partial "), a.Body/8+1)
		return response(req, 200, body(data, io.EOF, a.Slow), int64(len(data))), &url.Error{Op: "Get", URL: req.URL.String(), Err: newErr("client error with response", a.Code == 1)}
	case "hang":
		r.e.Fault("hang")
		return fail(os.ErrDeadlineExceeded)
	}
	r.e.Fault("net-" + a.Kind)
	return fail(netErr(a.Kind, req.URL.Host))
}

// deliverBody is the error a truncated page body ends with.
func (r *crawlRun) deliverBody(i int) error {
	return &simErr{what: "truncated body of page " + strconv.Itoa(i)}
}

// do is the observation point of every engine page request.
func (r *crawlRun) do(req *http.Request, next func(*http.Request, int, int) (*http.Response, error)) (*http.Response, error) {
	key := normKey(req.URL.String())
	i, ok := r.byKey[key]
	if !ok {
		i = -1
		r.unknown[key]++
	}
	r.ev("request %s page=%d", req.URL, i)
	r.enter("request", i)
	defer r.leave()
	n := 0
	if i >= 0 {
		pr := r.pages[i]
		n = pr.reqs
		pr.reqs++
		r.onRequest(i, n, req)
		r.activate(i)
	} else if r.match != nil && !r.match(key) {
		r.e.Violate("C08", "unmatched-request", "%s is requested although the matcher rejects it", req.URL)
	}
	begin := r.e.Now()
	resp, err := next(req, i, n)
	// below the client the end of its timeout looks like a cancellation
	r.clientTimeout(err, begin)
	clientTO := err != nil && r.c.Client == "default" && r.e.Now()-begin >= ant.DefaultClient.Timeout && r.ctx.Err() == nil
	if err != nil {
		r.ev("request page=%d failed: %v temp=%v ctx=%v", i, err, isTemp(err), isCtx(err) && req.Context().Err() != nil)
	} else {
		r.ev("request page=%d status %d", i, resp.StatusCode)
	}
	// errors caused by the end of the crawl's context are not failures
	if i >= 0 && !(err != nil && !clientTO && (errors.Is(err, context.Canceled) || isCtx(err) && r.ctx.Err() != nil)) {
		pr := r.pages[i]
		last := n+1 >= r.maxTry
		switch {
		case err != nil:
			t := isTemp(err) || clientTO
			r.deliver(err, !t || last)
			pr.final = "error"
			if !t || last {
				r.deactivate(i)
			}
		case resp.StatusCode == 404:
			pr.final = "404"
			r.deactivate(i)
		case resp.StatusCode >= 400:
			fe := &ant.FetchError{URL: req.URL, Status: resp.StatusCode}
			t := resp.StatusCode == 429 || resp.StatusCode == 503 || resp.StatusCode == 504
			r.deliver(fe, !t || last)
			pr.final = "status"
			if !t || last {
				r.deactivate(i)
			}
		default:
			pr.final = "ok"
		}
	}
	if resp != nil && resp.Body != nil && (resp.StatusCode < 300 || resp.StatusCode >= 400) {
		b := &trackBody{r: r, rc: resp.Body, page: i, what: fmt.Sprintf("request %d of page %d", n+1, i), empty: resp.ContentLength == 0}
		r.bodies = append(r.bodies, b)
		resp.Body = b
	}
	return resp, err
}

func (r *crawlRun) onRequest(i, n int, req *http.Request) {
	e, pr := r.e, r.pages[i]
	now := e.Now()
	if r.match != nil && !r.match(pr.key) {
		e.Violate("C08", "unmatched-request", "%s is requested although the matcher rejects it", req.URL)
	}
	if pr.limiting > 0 {
		e.Violate("C08", "limiter-bypassed", "page %d is requested while the limiter still holds it", i)
	}
	if r.c.Limiter != "" && n == 0 && pr.limited != 1 {
		e.Violate("C08", "limiter-count", "page %d is requested after %d successful limiter calls", i, pr.limited)
	}
	h := r.hosts[req.URL.Host]
	if h == nil || r.c.Impolite {
		return
	}
	hi := r.hostIx[req.URL.Host]
	rb := r.c.Hosts[hi].Robots
	if len(h.okAt) == 0 {
		e.Violate("C06", "unchecked", "page %d is requested before the robots.txt of its host was obtained", i)
	} else {
		// some version obtained within the last hour (or the newest) must allow it
		allowed, fresh := false, false
		var vers []int
		for k := range h.okAt {
			if now-h.okAt[k] <= time.Hour+r.c1slack() {
				fresh = true
				vers = append(vers, h.okVer[k])
				v := h.okVer[k]
				if v >= len(rb) || robotsAllow(rb[v], pr.key, false) {
					allowed = true
				}
			}
		}
		if !fresh {
			e.Violate("C06", "stale", "page %d is requested %v after its host's robots.txt was last obtained", i, now-h.okAt[len(h.okAt)-1])
		} else if !allowed {
			e.Violate("C06", "disallowed", "page %d (%s) is requested although robots.txt of %s disallows it (versions %v)", i, req.URL, req.URL.Host, vers)
		}
	}
	if n == 0 {
		if len(rb) == 1 {
			d := time.Duration(robotsDelay(rb[0])) * time.Millisecond
			if d > 0 {
				e.Probe("delayed-request")
				for _, t := range h.firstReqs {
					if now-t < d {
						e.Violate("C07", "spacing", "two page requests to %s start %v apart, its crawl delay is %v", req.URL.Host, now-t, d)
						break
					}
				}
			}
		}
		h.firstReqs = append(h.firstReqs, now)
	}
}

// c1slack covers retries and scraping time between the robots check and a
// request of the same page.
func (r *crawlRun) c1slack() time.Duration {
	d := 2*time.Minute + time.Duration(runtime.SimStallNano())
	if r.c.Limiter == "rec" && r.c.LimLat > 60_000_000 {
		d += us(r.c.LimLat) // robots.txt is checked before the limiter
	}
	return d
}

type stubClient struct{ r *crawlRun }

func (c stubClient) Do(req *http.Request) (*http.Response, error) { return c.r.do(req, c.r.stubDo) }

type httpClient struct {
	r *crawlRun
	c *http.Client
}

func (c httpClient) Do(req *http.Request) (*http.Response, error) {
	return c.r.do(req, func(req *http.Request, i, n int) (*http.Response, error) {
		req.Header.Set("X-Sim", fmt.Sprintf("%d/%d", i, n))
		return c.c.Do(req)
	})
}

// faultRT injects connection level faults in front of a real transport.
type faultRT struct {
	r    *crawlRun
	next http.RoundTripper
}

func (f faultRT) RoundTrip(req *http.Request) (*http.Response, error) {
	if i, n, ok := simHeader(req.Header.Get("X-Sim")); ok && i >= 0 && !strings.HasPrefix(req.URL.Path, "/__r/") {
		a := f.r.attempt(i, n)
		switch a.Kind {
		case "refuse", "dns", "dnstemp", "timeout", "temp", "perm":
			if err := sleepCtx(req.Context(), us(a.Lat)); err != nil {
				return nil, err
			}
			f.r.e.Fault("net-" + a.Kind)
			return nil, netErr(a.Kind, req.URL.Host)
		}
	}
	return f.next.RoundTrip(req)
}

func simHeader(s string) (i, n int, ok bool) {
	a, b, ok := strings.Cut(s, "/")
	if !ok {
		return 0, 0, false
	}
	i, e1 := strconv.Atoi(a)
	n, e2 := strconv.Atoi(b)
	return i, n, e1 == nil && e2 == nil
}

// robotsRT observes the default client: robots.txt requests, and page requests
// when the engine's fetcher uses the default client.
type robotsRT struct {
	r    *crawlRun
	next http.RoundTripper // nil: answer directly
}

func (t robotsRT) RoundTrip(req *http.Request) (*http.Response, error) {
	r := t.r
	if req.URL.Path != "/robots.txt" && req.URL.Path != "/robots2.txt" {
		if strings.HasPrefix(req.URL.Path, "/__r/") {
			return t.next.RoundTrip(req)
		}
		return r.do(req, func(req *http.Request, i, n int) (*http.Response, error) {
			req = req.Clone(req.Context())
			req.Header.Set("X-Sim", fmt.Sprintf("%d/%d", i, n))
			return t.next.RoundTrip(req)
		})
	}
	host := req.URL.Host
	h := r.hosts[host]
	if h == nil {
		r.ev("robots.txt of unknown host %s", host)
		h = &hostRun{}
		r.hosts[host] = h
	}
	if r.c.Impolite {
		r.e.Violate("C06", "impolite", "an impolite engine requests robots.txt of %s", host)
	}
	n := h.robotsReqs
	h.robotsReqs++
	ver := r.robotsVersion(host, r.e.Now())
	rb := r.robots(host, ver)
	r.ev("robots.txt of %s request %d (version %d)", host, n, ver)
	if r.returned {
		r.e.Violate("C03", "late", "robots.txt of %s is requested %v after the crawl had returned", host, r.e.Now()-r.retAt)
	}
	// "kept": no new request while a copy obtained within the last hour exists
	if req.URL.Path == "/robots.txt" {
		if k := len(h.okAt); k > 0 {
			// (lookups that were under way at the same time are fine)
			if age := r.e.Now() - h.okAt[k-1]; age < time.Hour-r.c1slack() {
				if age <= time.Second+time.Duration(runtime.SimStallNano()) {
					r.e.Probe("robots-concurrent-lookup")
				} else {
					r.e.Violate("C06", "refetched", "robots.txt of %s is requested again only %v after it was obtained", host, age)
				}
			} else {
				r.e.Probe("robots-expired")
			}
		}
	}
	var resp *http.Response
	var err error
	begin := r.e.Now()
	if t.next != nil {
		switch rb.Kind {
		case "refuse", "dns", "timeout":
			if err = sleepCtx(req.Context(), us(rb.Lat)); err == nil {
				r.e.Fault("robots-" + rb.Kind)
				err = netErr(rb.Kind, host)
			}
		default:
			q := req.Clone(req.Context())
			q.Header.Set("X-Sim-Robots", strconv.Itoa(ver))
			resp, err = t.next.RoundTrip(q)
		}
	} else {
		resp, err = r.stubRobots(req, rb, n)
	}
	r.clientTimeout(err, begin)
	if err != nil {
		r.ev("robots.txt of %s failed: %v", host, err)
		if req.Context().Err() == nil || rb.Kind == "hang" && r.ctx.Err() == nil && !r.failed {
			r.deliver(err, true)
		}
		return resp, err
	}
	r.ev("robots.txt of %s: %d", host, resp.StatusCode)
	if resp.StatusCode < 300 || resp.StatusCode >= 400 {
		b := &robotsBody{trackBody{r: r, rc: resp.Body, page: -1, what: "robots.txt of " + host, empty: resp.ContentLength == 0}, h, ver, resp.StatusCode >= 400}
		r.bodies = append(r.bodies, &b.trackBody)
		if resp.StatusCode >= 400 {
			b.got()
		}
		resp.Body = b
	}
	return resp, err
}

type robotsBody struct {
	trackBody
	h    *hostRun
	ver  int
	done bool
}

func (b *robotsBody) got() {
	b.done = true
	b.h.okAt = append(b.h.okAt, b.r.e.Now())
	b.h.okVer = append(b.h.okVer, b.ver)
}

func (b *robotsBody) Read(p []byte) (int, error) {
	n, err := b.trackBody.Read(p)
	if err == io.EOF && !b.done {
		b.got()
	}
	return n, err
}

func (r *crawlRun) robotsVersion(host string, now time.Duration) int {
	hi, ok := r.hostIx[host]
	if !ok {
		return 0
	}
	rb := r.c.Hosts[hi].Robots
	for v := range rb {
		if rb[v].Until == 0 || now < time.Duration(rb[v].Until)*time.Second {
			return v
		}
	}
	return max(0, len(rb)-1)
}

func (r *crawlRun) robots(host string, ver int) plan.Robots {
	hi, ok := r.hostIx[host]
	if !ok || ver >= len(r.c.Hosts[hi].Robots) {
		return plan.Robots{Kind: "none"}
	}
	return r.c.Hosts[hi].Robots[ver]
}

func (r *crawlRun) stubRobots(req *http.Request, rb plan.Robots, n int) (*http.Response, error) {
	ctx := req.Context()
	lat := rb.Lat
	if rb.Kind == "hang" {
		lat += 60_000_000
	}
	if err := sleepCtx(ctx, us(lat)); err != nil {
		if rb.Kind == "hang" {
			r.e.Fault("robots-hang")
		}
		return nil, err
	}
	body := func(s string, end error) io.ReadCloser {
		return &stubBody{ctx: ctx, data: []byte(s), end: end, piece: 64, seed: mix(r.e.P.Seed, strHash(req.URL.Host), uint64(n))}
	}
	if hi, ok := r.hostIx[req.URL.Host]; ok && r.c.Hosts[hi].TLS && req.URL.Scheme != "https" {
		r.e.Probe("robots-scheme")
		s := "Client sent an HTTP request to an HTTPS server.\n"
		return response(req, 400, body(s, io.EOF), int64(len(s))), nil
	}
	switch rb.Kind {
	case "none", "gone", "forbid":
		code := map[string]int{"none": 404, "gone": 410, "forbid": 403}[rb.Kind]
		s := "<html>no robots here</html>"
		return response(req, code, body(s, io.EOF), int64(len(s))), nil
	case "refuse", "dns", "reset", "timeout":
		r.e.Fault("robots-" + rb.Kind)
		return nil, netErr(rb.Kind, req.URL.Host)
	case "trunc":
		r.e.Fault("robots-truncated")
		s := robotsTxt(rb)
		return response(req, 200, body(s[:len(s)/2], newErr("truncated robots.txt", false)), int64(len(s))), nil
	case "redir":
		if req.URL.Path == "/robots.txt" {
			resp := response(req, 302, body("", io.EOF), 0)
			resp.Header.Set("Location", "/robots2.txt")
			return resp, nil
		}
	}
	s := robotsTxt(rb)
	code := 200
	if rb.Kind == "nonauth" {
		code = 203
	}
	return response(req, code, body(s, io.EOF), int64(len(s))), nil
}

// limiter wraps the configured limiter.
type limWrap struct {
	r     *crawlRun
	inner ant.Limiter
}

func (l limWrap) Limit(ctx context.Context, u *url.URL) error {
	r := l.r
	key := normKey(u.String())
	i, ok := r.byKey[key]
	if !ok {
		i = -1
	}
	r.ev("limit %s page=%d", u, i)
	r.enter("limiter", i)
	defer r.leave()
	k := r.limCalls
	r.limCalls++
	if r.match != nil && !r.match(key) {
		r.e.Violate("C08", "unmatched-limit", "%s reaches the limiter although the matcher rejects it", u)
	}
	if i >= 0 {
		r.activate(i)
		r.pages[i].limiting++
	}
	var err error
	if f := failAt(r.c.LimFail, k); f != "" {
		r.e.Fault("limiter-" + f)
		err = sleepCtx(ctx, us(r.c.LimLat))
		if err == nil {
			err = r.deliver(newErr("limiter failure", f == "temp"), true)
		}
	} else if l.inner != nil {
		err = l.inner.Limit(ctx, u)
	} else {
		err = sleepCtx(ctx, us(int(mix(r.e.P.Seed, uint64(k))%uint64(r.c.LimLat+1))))
	}
	if i >= 0 {
		r.pages[i].limiting--
		if err == nil {
			r.pages[i].limited++
			if r.pages[i].limited > 1 {
				r.e.Violate("C08", "limiter-count", "page %d passes the limiter %d times", i, r.pages[i].limited)
			}
		}
	}
	r.ev("limit page=%d done: %v", i, err)
	if err == nil {
		r.onLimited(i, u)
	}
	return err
}

func failAt(fs []plan.Fail, k int) string {
	for _, f := range fs {
		if f.At == k {
			return f.Kind
		}
	}
	return ""
}

type dedWrap struct {
	r     *crawlRun
	inner ant.Deduper
}

func (d dedWrap) Dedupe(ctx context.Context, urls ant.URLs) (ant.URLs, error) {
	r := d.r
	k := r.dedCalls
	r.dedCalls++
	r.ev("dedupe call %d: %d urls", k, len(urls))
	if err := sleepCtx(ctx, us(r.c.DedupLat)); err != nil {
		return nil, err
	}
	if f := failAt(r.c.DedFail, k); f != "" {
		r.e.Fault("deduper-" + f)
		err := newErr("deduper failure", f == "temp")
		if f == "temp" {
			r.tempDed++
			r.tempScr++
			r.deliver(err, r.tempDed >= r.maxTry)
		} else {
			r.deliver(err, true)
		}
		if mix(r.e.P.Seed, uint64(k), 5)%2 == 0 {
			return urls[:(len(urls)+1)/2], err
		}
		return nil, err
	}
	return d.inner.Dedupe(ctx, urls)
}

type queueWrap struct {
	r *crawlRun
	q ant.Queue
}

func (q queueWrap) Enqueue(ctx context.Context, urls ant.URLs) error {
	r := q.r
	q.late("Enqueue")
	k := r.enqCalls
	r.enqCalls++
	for _, u := range urls {
		if r.match != nil && !r.match(normKey(u.String())) {
			r.e.Violate("C08", "unmatched-queued", "%s is queued although the matcher rejects it", u)
		}
	}
	if f := failAt(r.c.EnqFail, k); f != "" && ctx.Err() == nil {
		r.e.Fault("queue-enqueue")
		return r.deliver(newErr("queue failure", false), true)
	}
	err := q.q.Enqueue(ctx, urls)
	r.ev("enqueue %d: %v", len(urls), err)
	return err
}

func (q queueWrap) Dequeue(ctx context.Context) (*ant.URL, error) {
	r := q.r
	q.late("Dequeue")
	k := r.deqCalls
	r.deqCalls++
	if f := failAt(r.c.DeqFail, k); f != "" && ctx.Err() == nil {
		r.e.Fault("queue-dequeue")
		return nil, r.deliver(newErr("queue failure", false), true)
	}
	return q.q.Dequeue(ctx)
}
func (q queueWrap) Done(ctx context.Context, u *ant.URL) error {
	q.late("Done")
	return q.q.Done(ctx, u)
}
func (q queueWrap) Wait() { q.late("Wait"); q.q.Wait() }
func (q queueWrap) Close(ctx context.Context) error {
	q.late("Close")
	r := q.r
	r.closeCalls++
	if f := r.c.CloseFail; f == "" || r.closeCalls > 1 || ctx.Err() != nil || r.failed || r.cancelled {
		return q.q.Close(ctx)
	} else if f == "after" {
		q.q.Close(ctx)
	}
	r.e.Fault("queue-close")
	return r.deliver(newErr("queue failure", false), true)
}

// late flags calls that start after the crawl has returned.
func (q queueWrap) late(what string) {
	if r := q.r; r.returned {
		r.e.Violate("C03", "late", "the queue's %s is called %v after the crawl had returned", what, r.e.Now()-r.retAt)
	}
}

// crawlable spells the link if the engine accepts it.
func (r *crawlRun) crawlable(l plan.Link) []string {
	raw := r.s.spell(l, -1)
	if u, err := url.Parse(raw); err == nil && (u.Scheme == "http" || u.Scheme == "https") {
		return []string{raw}
	}
	return nil
}

// parsed returns the URLs of the links; equal spellings share a value of known.
func (r *crawlRun) parsed(links []plan.Link, known map[string]*url.URL) ant.URLs {
	var urls ant.URLs
	for _, l := range links {
		raw := r.s.spell(l, -1)
		u := known[raw]
		if u == nil {
			if u, _ = url.Parse(raw); u == nil || u.Scheme != "http" && u.Scheme != "https" {
				continue
			}
			if known != nil {
				known[raw] = u
			}
		}
		urls = append(urls, u)
	}
	return urls
}

// permErr is an error that is not temporary whatever it wraps.
type permErr struct{ err error }

func (p permErr) Error() string   { return "enqueue: " + p.err.Error() }
func (p permErr) Unwrap() error   { return p.err }
func (p permErr) Temporary() bool { return false }

// Scrape is the workload's scraper.
func (r *crawlRun) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	i := -1
	if s := strings.TrimPrefix(p.URL.Path, "/__r/"); s != p.URL.Path {
		i, _ = strconv.Atoi(s)
	} else if k, ok := r.byKey[normKey(p.URL.String())]; ok {
		i = k
	}
	r.ev("scrape %s page=%d", p.URL, i)
	r.enter("scraper", i)
	defer r.leave()
	if i < 0 || i >= len(r.pages) {
		r.e.Violate("C01", "foreign", "the scraper received a page that does not exist: %s", p.URL)
		return nil, nil
	}
	pr, pg := r.pages[i], r.c.Pages[i]
	r.activate(i)
	defer r.deactivate(i)
	pr.scrapes++
	if pr.scrapes-pr.temps > 1 {
		r.e.Violate("C02", "twice", "page %d (%s) is handed to the scraper again (%d times, %d temporary failures)", i, p.URL, pr.scrapes, pr.temps)
		r.e.Violate("C16", "twice", "page %d (%s) is handed to the scraper again (%d times, %d temporary failures)", i, p.URL, pr.scrapes, pr.temps)
	}
	if pr.okScr > 0 {
		r.e.Violate("C02", "twice", "page %d (%s) is handed to the scraper again after it was scraped", i, p.URL)
	}
	if r.match != nil && !r.match(pr.key) {
		r.e.Violate("C08", "unmatched-scraped", "%s is scraped although the matcher rejects it", p.URL)
	}
	pr.inScrape++
	if l := pg.Level; l > 0 {
		r.levels[l]++
		r.levelPeak[l] = max(r.levelPeak[l], r.levels[l])
		defer func() { r.levels[l]-- }()
	}
	defer func() { pr.inScrape-- }()

	var urls ant.URLs
	var err error
	check := func(text string) {
		if !strings.Contains(text, fmt.Sprintf("<!--page %d-->", i)) {
			r.e.Violate("C01", "content", "the page handed to the scraper for page %d has other content: %.80q", i, text)
		}
	}
	direct := func() {
		if urls = r.shared[i]; urls == nil {
			urls = r.parsed(pg.Links, nil)
		}
	}
	enq := func() error {
		var raws []string
		for _, l := range pg.Enq {
			raws = append(raws, r.crawlable(l)...)
		}
		if len(raws) == 0 {
			return nil
		}
		r.e.Probe("scraper-enqueues")
		if err := r.eng.Enqueue(ctx, raws...); err != nil {
			r.ev("page %d: Enqueue: %v", i, err)
			return permErr{err}
		}
		return nil
	}
	if !pg.EnqLate {
		if err := enq(); err != nil {
			return nil, err
		}
	}
	switch pg.ScrMode {
	case 1, 6:
		if _, err = p.Document(); err == nil {
			var h string
			if h, err = p.HTML(); err == nil {
				check(h)
			}
		}
	case 3:
		var b []byte
		if b, err = io.ReadAll(p.Body()); err == nil {
			check(string(b))
		}
	case 4:
		io.CopyN(io.Discard, p.Body(), int64(1+mix(r.e.P.Seed, uint64(i))%200))
	}
	if err == nil && parsedMode(pg.ScrMode) && pg.ScrLat > 3_000_000 {
		_, err = p.Document() // the client's timeout covers the body
	}
	unread := func() (ant.URLs, error) {
		r.ev("scrape page=%d cannot read: %v", i, err)
		if ctx.Err() == nil && !errors.Is(err, context.Canceled) {
			t := isTemp(err)
			if t {
				pr.temps++
				r.tempScr++
			}
			r.deliver(err, !t || pr.temps >= r.maxTry)
		}
		return nil, err
	}
	if err != nil {
		return unread()
	}
	if pg.ScrLat > 0 {
		if r.c.ScrIdle {
			time.Sleep(us(pg.ScrLat))
		} else if err := sleepCtx(ctx, us(pg.ScrLat)); err != nil {
			return nil, err
		}
	}
	if k := pr.scrapes - 1; len(pg.ScrFail) > 0 {
		f := pg.ScrFail[min(k, len(pg.ScrFail)-1)]
		switch f {
		case "perm", "temp":
			r.e.Fault("scraper-" + f)
			err := newErr(fmt.Sprintf("scraper failure on page %d", i), f == "temp")
			if pg.ScrMode == 4 { // wrapped
				err = fmt.Errorf("wrapped: %w", err)
			}
			if f == "temp" {
				pr.temps++
				r.tempScr++
				// temporary for ever: giving up is fine
				r.deliver(err, pr.temps >= r.maxTry)
			} else {
				r.deliver(err, true)
			}
			r.ev("scrape page=%d fails: %v", i, err)
			if mix(r.e.P.Seed, uint64(i), uint64(k))%2 == 0 {
				direct() // what it has found so far
				return urls, err
			}
			return nil, err
		}
	}
	if pg.EnqLate {
		if err := enq(); err != nil {
			return nil, err
		}
	}
	switch pg.ScrMode {
	case 0, 1:
		urls = p.URLs()
	case 5:
		urls, err = p.Next("a[href]")
		if err != nil {
			return unread()
		}
	case 6:
		for _, n := range p.Query("a") {
			for _, a := range n.Attr {
				if a.Key == "href" {
					if u, e := p.URL.Parse(a.Val); e == nil && u.Hostname() != "" && (u.Scheme == "http" || u.Scheme == "https") {
						urls = append(urls, u)
					}
				}
			}
		}
	default:
		direct()
	}
	pr.okScr++
	r.ev("scrape page=%d ok, %d links", i, len(urls))
	return urls, nil
}

func (r *crawlRun) matcher() ant.Matcher {
	kind, arg, _ := strings.Cut(r.c.Matcher, ":")
	hostPath := func(key string) (string, string) {
		_, rest, _ := strings.Cut(key, "://")
		rest, _, _ = strings.Cut(rest, "?")
		h, p, _ := strings.Cut(rest, "/")
		return h, h + decodePath("/"+p)
	}
	switch kind {
	case "host":
		r.match = func(key string) bool { h, _ := hostPath(key); return h == arg }
		return ant.MatchHostname(arg)
	case "pattern":
		r.match = func(key string) bool { _, hp := hostPath(key); return globMatch(arg, hp) }
		return ant.MatchPattern(arg)
	case "regexp":
		re := regexp.MustCompile(arg)
		r.match = func(key string) bool { _, hp := hostPath(key); return re.MatchString(hp) }
		return ant.MatchRegexp(arg)
	case "func":
		n, _ := strconv.Atoi(arg)
		f := func(key string) bool {
			i, ok := r.byKey[key]
			return !ok || n == 0 || i == 0 || mix(uint64(i), uint64(n))%3 != 0
		}
		r.match = f
		return ant.MatcherFunc(func(u *url.URL) bool { return f(normKey(u.String())) })
	}
	return nil
}

// globMatch matches * (any sequence) and ? (one character).
func globMatch(pat, s string) bool {
	if pat == "" {
		return s == ""
	}
	switch pat[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if globMatch(pat[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return s != "" && globMatch(pat[1:], s[1:])
	}
	return s != "" && s[0] == pat[0] && globMatch(pat[1:], s[1:])
}

func crawlWorld(e *Env) {
	c := e.P.Crawl
	r := &crawlRun{e: e, c: c, s: site{c}, byKey: map[string]int{}, hosts: map[string]*hostRun{}, hostIx: map[string]int{}, unknown: map[string]int{}, levels: map[int]int{}, levelPeak: map[int]int{}}
	r.maxTry = c.MaxTry
	if r.maxTry <= 0 {
		r.maxTry = 5
	}
	for i, h := range c.Hosts {
		r.hosts[h.Name] = &hostRun{}
		r.hostIx[h.Name] = i
	}
	for i := range c.Pages {
		k := normKey(r.s.url(i))
		r.pages = append(r.pages, &pageRun{key: k})
		if _, dup := r.byKey[k]; !dup {
			r.byKey[k] = i
		}
	}
	r.net = newNet(e)
	r.serve()
	var rt http.RoundTripper
	if c.Client != "stub" {
		rt = faultRT{r, newTransport()}
	}
	ant.DefaultClient.Transport = robotsRT{r, rt}
	f := &ant.Fetcher{MaxAttempts: c.MaxTry}
	switch c.Client {
	case "stub":
		f.Client = stubClient{r}
	case "http":
		f.Client = httpClient{r, &http.Client{Transport: faultRT{r, newTransport()}, Timeout: 30 * time.Second}}
	}
	if c.Cache != "" {
		inner := f.Client
		if inner == nil {
			inner = ant.DefaultClient
		}
		var opts []antcache.Option
		if c.Cache == "aggressive" {
			opts = append(opts, antcache.Aggressive(time.Hour))
		}
		cc, err := antcache.New(inner, opts...)
		if err != nil {
			e.V("new", "antcache.New failed: %v", err)
			return
		}
		f.Client = hitClient{r, cc}
	}
	cfg := ant.EngineConfig{Scraper: r, Fetcher: f, Impolite: c.Impolite, Workers: c.Workers, Concurrency: c.Conc, Matcher: nil}
	if m := r.matcher(); m != nil {
		cfg.Matcher = m
	}
	if c.Limiter != "" {
		cfg.Limiter = limWrap{r, r.builtinLimiter()}
	}
	switch c.Deduper {
	case "map":
		cfg.Deduper = ant.DedupeMap()
	case "bf":
		cfg.Deduper = ant.DedupeBF(2000000, 5)
	case "bftiny":
		cfg.Deduper = ant.DedupeBF(64, 2)
	}
	if len(c.DedFail) > 0 || c.DedupLat > 0 {
		if cfg.Deduper == nil {
			cfg.Deduper = ant.DedupeMap()
		}
		cfg.Deduper = dedWrap{r, cfg.Deduper}
	}
	if !c.NoQueue {
		cfg.Queue = queueWrap{r, ant.MemoryQueue(1)}
	}
	eng, err := ant.NewEngine(cfg)
	if err != nil {
		e.V("new", "NewEngine failed: %v", err)
		return
	}
	r.eng = eng
	if c.Share {
		r.shared = map[int]ant.URLs{}
		known := map[string]*url.URL{}
		for i := range c.Pages {
			r.shared[i] = r.parsed(c.Pages[i].Links, known)
		}
	}
	var starts []string
	for _, l := range c.Starts {
		starts = append(starts, r.s.spell(l, -1))
	}
	if c.BadStart != "" {
		k := int(mix(e.P.Seed, 5) % uint64(len(starts)+1))
		starts = append(starts[:k], append([]string{c.BadStart}, starts[k:]...)...)
	}

	r.started = e.Now()
	var ctx context.Context
	if c.CancelUs > 0 && c.Deadline {
		r.ctx, r.cancel = context.WithTimeout(context.Background(), us(int(c.CancelUs)))
		r.e.Logf("deadline at %dus", c.CancelUs)
	} else {
		r.ctx, r.cancel = context.WithCancel(context.Background())
	}
	ctx = r.ctx
	defer r.cancel()
	if len(c.Pre) > 0 {
		var raws []string
		for _, l := range c.Pre {
			raws = append(raws, r.crawlable(l)...)
		}
		if err := eng.Enqueue(ctx, raws...); err != nil {
			r.ev("Enqueue: %v", err)
			if !r.failed && !r.cancelled && ctx.Err() == nil {
				e.V("spurious", "Enqueue fails: %v", err)
			}
			return
		}
		e.Probe("enqueued-before-run")
	}
	if c.CancelUs < 0 {
		if c.Deadline {
			defer r.cancel()
			r.ctx, r.cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
			ctx = r.ctx
		}
		r.doCancel("cancel-before-start")
	}
	if c.CancelUs > 0 {
		go func() {
			time.Sleep(us(int(c.CancelUs)))
			if c.Deadline {
				r.expired()
				return
			}
			r.doCancel("cancel-at-time")
		}()
	}
	horizon := 60 * 24 * time.Hour
	ok := e.within(horizon, func() {
		r.err = eng.Run(ctx, starts...)
		r.expired()
		r.returned = true
		r.retAt = e.Now()
	})
	r.check(ok)
}

func newTransport() *http.Transport {
	return &http.Transport{DialContext: (&net.Dialer{Timeout: 30 * time.Second}).DialContext, MaxIdleConnsPerHost: 1000, IdleConnTimeout: 90 * time.Second, ResponseHeaderTimeout: 15 * time.Second, DisableCompression: true}
}

// reach computes which pages a successful crawl must have scraped.
func (r *crawlRun) reach(loose bool) map[int]bool {
	got := map[int]bool{}
	var visit func(to int)
	visit = func(to int) {
		if to < 0 || to >= len(r.pages) || got[to] {
			return
		}
		// two pages of a shrunk plan may have the same URL
		if r.byKey[r.pages[to].key] != to {
			visit(r.byKey[r.pages[to].key])
			return
		}
		if r.match != nil && !r.match(r.pages[to].key) {
			return
		}
		p := r.c.Pages[to]
		if !r.c.Impolite {
			rb := r.c.Hosts[p.Host].Robots
			if len(rb) > 0 && !robotsAllow(rb[0], r.pages[to].key, loose) {
				return
			}
		}
		// 404 within the attempts the fetcher makes
		for n := 0; n < r.maxTry; n++ {
			a := r.attempt(to, n)
			if a.Kind == "status" && a.Code == 404 {
				return
			}
			if a.Kind == "ok" || a.Kind == "redirect" || a.Kind == "trunc" {
				break
			}
		}
		got[to] = true
		for _, l := range p.Links {
			visit(l.To)
		}
		for _, l := range p.Enq {
			visit(l.To)
		}
	}
	for _, l := range r.c.Starts {
		visit(l.To)
	}
	for _, l := range r.c.Pre {
		visit(l.To)
	}
	return got
}

func (r *crawlRun) check(ok bool) {
	e, c := r.e, r.c
	nscr := 0
	for _, p := range r.pages {
		nscr += p.okScr
	}
	e.nontriv = r.events >= 8 && (len(c.Pages) > 1)
	if !ok {
		e.Violate("C03", "hang", "Run has not returned after %v (cancelled=%v failed=%v, %d pages scraped)", e.Now(), r.cancelled, r.failed, nscr)
		e.Violate("C04", "hang", "Run has not returned after %v (failed=%v)", e.Now(), r.failed)
		e.Violate("C05", "stuck", "Run has not returned after %v: %d calls in progress, limit %d", e.Now(), r.inCalls, c.Conc)
		e.Violate("C16", "hang", "Run has not returned after %v", e.Now())
		return
	}
	e.Logf("Run returned: %v", r.err)
	if r.inCalls > 0 {
		e.Violate("C03", "running", "%d fetch, limiter or scraper calls are still running when Run returns (%v)", r.inCalls, r.err)
	}
	if r.cancelled && r.cancelAt <= r.retAt {
		e.Probe("cancelled-run")
		if d := r.retAt - r.cancelAt; d > r.slack() {
			e.Violate("C03", "slow-cancel", "Run returns %v after the cancellation", d)
			e.Violate("C07", "slow-cancel", "Run returns %v after the cancellation", d)
		}
	} else if r.failed {
		e.Probe("failed-run")
		if d := r.retAt - r.failAt; d > r.slack() {
			e.Violate("C03", "slow-error", "Run returns %v after the failure", d)
			e.Violate("C04", "slow-error", "Run returns %v after the failure", d)
		}
	}
	if c.BadStart != "" {
		if r.err == nil {
			e.Violate("C08", "bad-start", "the start URL %q is accepted", c.BadStart)
		}
		e.Probe("bad-start")
	}
	if !r.cancelled {
		switch {
		case r.failed && r.err == nil:
			e.Violate("C04", "swallowed", "a failure occurred (%v) but Run reports success", r.errs[0])
			e.Violate("C01", "swallowed", "a failure occurred (%v) but Run reports success", r.errs[0])
			if hasRobotsFault(c) {
				e.Violate("C06", "swallowed", "robots.txt could not be obtained but Run reports success")
			}
		case r.failed && !r.wraps(r.err):
			e.Violate("C04", "wrong-error", "Run returns %q, which wraps none of the errors that occurred (%d, first %q)", r.err, len(r.errs), r.errs[0])
		case !r.failed && r.err != nil && c.BadStart == "":
			if r.tempScr > 0 {
				e.Violate("C16", "fatal-temporary", "only temporary failures occurred but Run returns %v", r.err)
			} else if len(r.errs) > 0 {
				e.Violate("C10", "fatal-temporary", "only temporary failures occurred but Run returns %v", r.err)
				e.Violate("C01", "spurious", "only temporary failures occurred but Run returns %v", r.err)
			} else {
				for _, p := range []string{"C01", "C02", "C05", "C06", "C08"} {
					e.Violate(p, "spurious", "nothing failed but Run returns %v", r.err)
				}
			}
			e.Violate("C04", "spurious", "nothing failed for good but Run returns %v", r.err)
		}
	}
	if r.err == nil && !r.failed && c.Deduper != "bftiny" && !r.multiRobots() && c.BadStart == "" {
		e.Probe("complete-crawl")
		want := r.reach(false)
		loose := want
		if c.AnyPattern {
			loose = r.reach(true)
		}
		for i := range r.pages {
			if want[i] && !loose[i] && r.pages[i].okScr == 0 {
				e.Violate("C06", "unanchored pattern", "page %d (%s) is not requested: a robots.txt pattern that does not begin with * excludes it although it only matches within the path", i, r.s.url(i))
				break
			}
		}
		for i := range r.pages {
			if want[i] && loose[i] && r.pages[i].okScr == 0 {
				for _, p := range []string{"C01", "C02", "C06", "C08", "C16"} {
					e.Violate(p, "missing", "Run reports success but page %d (%s) was never scraped (requests %d, last outcome %q); unexpected requests: %v", i, r.s.url(i), r.pages[i].reqs, r.pages[i].final, keys(r.unknown))
				}
				break
			}
		}
		for i := range r.pages {
			if !want[i] && r.pages[i].okScr > 0 {
				e.Violate("C08", "excess", "page %d (%s) is scraped but not reachable under the matcher and robots.txt", i, r.s.url(i))
				e.Violate("C06", "excess", "page %d (%s) is scraped but not reachable under the matcher and robots.txt", i, r.s.url(i))
			}
		}
		if c.Wide {
			cnt := map[int]int{}
			for i := range r.pages {
				if want[i] && c.Pages[i].Level > 0 {
					cnt[c.Pages[i].Level]++
				}
			}
			for l, k := range cnt {
				w := k
				if c.Conc > 0 && c.Conc < k {
					w = c.Conc
				}
				if r.levelPeak[l] < w {
					e.Violate("C05", "underused", "at most %d of %d independent pages of level %d were processed at once although the limit is %d (0: none)", r.levelPeak[l], k, l, c.Conc)
				}
				e.Probe("wide-level")
			}
		}
	}
	if r.c.Limiter != "" && strings.Contains(r.c.Limiter, ":") {
		r.checkRate()
	}
	// nothing may happen any more
	ev := r.events
	time.Sleep(5*time.Second + r.slack())
	if r.events != ev {
		e.Violate("C03", "late", "%d calls happened after Run had returned", r.events-ev)
	}
	if !raceMode {
		if st := antStacks(); len(st) > 0 {
			e.stack = strings.Join(st, "\n\n")
			e.Violate("C03", "goroutines", "%d goroutines of the crawl are left after Run returned: %s", len(st), firstLines(st[0], 4))
		}
	}
	for _, b := range r.bodies {
		if !b.closed {
			e.Violate("C11", "unclosed", "the body of %s is never closed (%d bytes read)", b.what, b.n)
			break
		}
	}
	if nscr > 3 {
		e.Probe("deep-crawl")
	}
	if r.peakCalls > 1 {
		e.Probe("concurrent-pages")
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	return strings.Join(l[:min(n, len(l))], " / ")
}

func keys(m map[string]int) []string {
	var ret []string
	for k := range m {
		ret = append(ret, k)
	}
	sortStr(ret)
	if len(ret) > 5 {
		ret = ret[:5]
	}
	return ret
}

func sortStr(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j-1] > s[j]; j-- {
			s[j-1], s[j] = s[j], s[j-1]
		}
	}
}

func (r *crawlRun) multiRobots() bool {
	for _, h := range r.c.Hosts {
		if len(h.Robots) > 1 && !r.c.Impolite {
			return true
		}
	}
	return false
}

// clientTimeout notices that the http.Client's own timeout ended a request; the
// client replaces the error.
func (r *crawlRun) clientTimeout(err error, begin time.Duration) {
	if err != nil && r.c.Client != "stub" && r.e.Now()-begin >= ant.DefaultClient.Timeout {
		r.timedOut = true
	}
}

// wraps reports whether err wraps a genuine error.
func (r *crawlRun) wraps(err error) bool {
	var to interface{ Timeout() bool }
	if r.timedOut && errors.As(err, &to) && to.Timeout() {
		return true
	}
	for _, g := range r.errs {
		if fe, ok := g.(*ant.FetchError); ok {
			var x *ant.FetchError
			if errors.As(err, &x) && x.Status == fe.Status {
				return true
			}
			continue
		}
		if errors.Is(err, g) {
			return true
		}
		// net/http may rewrap, never replace, the innermost cause
		var ue *url.Error
		if errors.As(g, &ue) && errors.Is(err, ue.Err) {
			return true
		}
	}
	return false
}

func (r *crawlRun) onLimited(i int, u *url.URL) {
	r.limitedAt = append(r.limitedAt, limEvent{r.e.Now(), u.Host, normKey(u.String())})
}

type limEvent struct {
	at   time.Duration
	host string
	key  string
}

// builtinLimiter parses "limit:N", "host:N:X", "pattern:N:X", "regexp:N:X".
func (r *crawlRun) builtinLimiter() ant.Limiter {
	l, _, _ := parseLimiter(r.c.Limiter)
	return l
}

func parseLimiter(s string) (l ant.Limiter, n int, applies func(host, path string) bool) {
	parts := strings.SplitN(s, ":", 3)
	if len(parts) < 2 {
		return nil, 0, nil
	}
	n, _ = strconv.Atoi(parts[1])
	if n <= 0 {
		n = 1
	}
	arg := ""
	if len(parts) > 2 {
		arg = parts[2]
	}
	switch parts[0] {
	case "limit":
		return ant.Limit(n), n, func(h, p string) bool { return true }
	case "host":
		return ant.LimitHostname(n, arg), n, func(h, p string) bool { return h == arg }
	case "pattern":
		return ant.LimitPattern(n, arg), n, func(h, p string) bool { return globMatch(arg, h+p) }
	case "regexp":
		re := regexp.MustCompile(arg)
		return ant.LimitRegexp(n, arg), n, func(h, p string) bool { return re.MatchString(h + p) }
	}
	return nil, 0, nil
}

func (r *crawlRun) checkRate() {
	_, n, applies := parseLimiter(r.c.Limiter)
	if applies == nil {
		return
	}
	var at []time.Duration
	for _, x := range r.limitedAt {
		_, rest, _ := strings.Cut(x.key, "://")
		rest, _, _ = strings.Cut(rest, "?")
		h, p, _ := strings.Cut(rest, "/")
		if applies(h, decodePath("/"+p)) {
			at = append(at, x.at)
		}
	}
	if msg := rateViolation(at, n); msg != "" {
		r.e.Violate("C09", "rate", "limiter %s in an engine: %s", r.c.Limiter, msg)
	}
	if len(at) > n {
		r.e.Probe("limited-beyond-burst")
	}
}

// rateViolation checks that every window of t seconds contains at most n + n*t
// events (one nanosecond per event of rounding is tolerated).
func rateViolation(at []time.Duration, n int) string {
	for i := range at {
		for j := i; j < len(at); j++ {
			t := (at[j] - at[i] + time.Duration(j-i+1)*10).Seconds()
			if float64(j-i+1) > float64(n)+float64(n)*t+1e-6 {
				return fmt.Sprintf("%d requests pass within %v, the rate is %d per second", j-i+1, at[j]-at[i], n)
			}
		}
	}
	return ""
}

func hasRobotsFault(c *plan.Crawl) bool {
	for _, h := range c.Hosts {
		for _, x := range h.Robots {
			switch x.Kind {
			case "refuse", "dns", "reset", "trunc", "hang", "timeout":
				return true
			}
		}
	}
	return false
}
