package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"sync"
	"time"

	"github.com/yields/ant"
	"verifsim/plan"
)

func init() { worlds["fetch"] = fetchWorld }

type fetchAtt struct {
	n      int
	start  time.Duration
	end    time.Duration
	ended  bool
	err    error
	status int
	resp   *http.Response
	reqURL string
	body   *obsBody
}

func (a *fetchAtt) temp() bool {
	if a.err != nil {
		return isTemp(a.err)
	}
	return a.status == 429 || a.status == 503 || a.status == 504
}

type fetchJob struct {
	i        int
	p        plan.FetchJob
	atts     []*fetchAtt
	returned bool
	lastGap  time.Duration
}

type fetchRun struct {
	e    *Env
	p    *plan.Fetch
	jobs []*fetchJob
	next func(*http.Request, *fetchJob, int) (*http.Response, error)
}

func (r *fetchRun) attempt(j *fetchJob, n int) plan.Attempt {
	if len(j.p.Attempts) == 0 {
		return plan.Attempt{Kind: "ok"}
	}
	return j.p.Attempts[min(n, len(j.p.Attempts)-1)]
}

func (r *fetchRun) body(j *fetchJob, n int) []byte {
	b := fmt.Sprintf("<html><body><h1>job %d attempt %d</h1>", j.i, n)
	for len(b) < j.p.BodyLen {
		b += fmt.Sprintf("<p>%d</p>", len(b))
	}
	return []byte(b + "</body></html>")
}

type fetchClient struct{ r *fetchRun }

// Do is the seam every attempt goes through.
func (c fetchClient) Do(req *http.Request) (*http.Response, error) {
	r := c.r
	var i int
	if _, err := fmt.Sscanf(req.URL.Path, "/job/%d", &i); err != nil || i < 0 || i >= len(r.jobs) {
		r.e.Violate("C10", "foreign", "the fetcher requests %s", req.URL)
		return nil, newErr("unknown url", false)
	}
	j := r.jobs[i]
	a := &fetchAtt{n: len(j.atts), start: r.e.Now(), reqURL: req.URL.String()}
	r.e.Logf("job %d attempt %d", i, a.n)
	if j.returned {
		r.e.Violate("C10", "late", "job %d makes attempt %d after Fetch has returned", i, a.n)
	}
	if req.Method != "GET" {
		r.e.Violate("C10", "method", "job %d uses method %s", i, req.Method)
	}
	if n := len(j.atts); n > 0 && !j.atts[n-1].ended {
		r.e.Violate("C10", "parallel", "job %d makes attempt %d while the previous one runs", i, a.n)
	}
	j.atts = append(j.atts, a)
	resp, err := r.next(req, j, a.n)
	a.ended, a.end, a.err, a.resp = true, r.e.Now(), err, resp
	if resp != nil {
		a.status = resp.StatusCode
		if err == nil || resp.Body != nil {
			a.body = &obsBody{e: r.e, rc: resp.Body, what: fmt.Sprintf("job %d attempt %d (status %d)", i, a.n, a.status)}
			resp.Body = a.body
		}
	}
	r.e.Logf("job %d attempt %d ends: status %d err %v", i, a.n, a.status, err)
	return resp, err
}

func fetchWorld(e *Env) {
	p := e.P.Fetch
	r := &fetchRun{e: e, p: p}
	for i, j := range p.Jobs {
		r.jobs = append(r.jobs, &fetchJob{i: i, p: j})
	}
	maxTry, minB, maxB := p.Max, time.Duration(p.MinMs)*time.Millisecond, time.Duration(p.MaxMs)*time.Millisecond
	f := &ant.Fetcher{Client: fetchClient{r}, MaxAttempts: maxTry, MinBackoff: minB, MaxBackoff: maxB}
	if maxTry <= 0 {
		maxTry = 5
	}
	if minB <= 0 {
		minB = 50 * time.Millisecond
	}
	if maxB <= 0 {
		maxB = time.Second
	}
	if p.UA != "" {
		f.UserAgent = ant.StaticAgent(p.UA)
	}
	hdr := func(j *fetchJob, n int) http.Header { return http.Header{"X-Attempt": {fmt.Sprintf("%d/%d", j.i, n)}} }
	if p.Client == "http" {
		nw := newNet(e)
		nw.handlers["f.test:80"] = func(c *conn, k int) {
			defer c.Close()
			br := bufio.NewReader(c)
			for {
				req, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				i, n, ok := twoInts(req.Header.Get("X-Sim"))
				if !ok || i >= len(r.jobs) {
					return
				}
				j := r.jobs[i]
				a := r.attempt(j, n)
				if a.Kind == "redirect" && len(req.URL.Path) > 6 && req.URL.Path[len(req.URL.Path)-6:] == "/moved" {
					a = plan.Attempt{Kind: "ok", Frame: a.Frame}
				}
				if !serveScript(e, c, req.URL.Path, a, r.body(j, n), []string{fmt.Sprintf("X-Attempt: %d/%d", i, n)}) {
					return
				}
			}
		}
		hc := &http.Client{Transport: dialFault{e, newTransport(), func(req *http.Request) *plan.Attempt {
			i, n, ok := twoInts(req.Header.Get("X-Sim"))
			if !ok {
				return nil
			}
			a := r.attempt(r.jobs[i], n)
			return &a
		}}, Timeout: time.Duration(p.ClientTO) * time.Millisecond}
		r.next = func(req *http.Request, j *fetchJob, n int) (*http.Response, error) {
			req.Header.Set("X-Sim", fmt.Sprintf("%d/%d", j.i, n))
			return hc.Do(req)
		}
	} else {
		r.next = func(req *http.Request, j *fetchJob, n int) (*http.Response, error) {
			return script(e, req, r.attempt(j, n), r.body(j, n), hdr(j, n), mix(e.P.Seed, uint64(j.i), uint64(n)))
		}
	}

	var wg sync.WaitGroup
	stall := func() time.Duration { return time.Duration(runtime.SimStallNano()) }
	run := func(j *fetchJob) {
		time.Sleep(us(j.p.StartUs))
		ctx, cancel, at := ctxFor(e, j.p.CancelUs, j.p.Deadline)
		defer cancel()
		u, _ := url.Parse(fmt.Sprintf("http://f.test/job/%d", j.i))
		begin := e.Now()
		e.Logf("fetch job %d", j.i)
		page, err := f.Fetch(ctx, u)
		end := e.Now()
		j.returned = true
		e.Logf("fetch job %d returns page=%v err=%v", j.i, page != nil, err)
		cancelled := at >= 0 && end >= at
		if cancelled {
			e.Fault("cancel")
			slack := 2*time.Millisecond + stall()
			if end-max(at, begin) > slack {
				e.Violate("C10", "cancel-slow", "job %d returns %v after its context ended", j.i, end-at)
			}
		}
		r.checkJob(j, page, err, maxTry, minB, maxB, begin, end, at, cancelled)
		if page != nil {
			io.Copy(io.Discard, page.Body())
			if c, ok := page.Body().(io.Closer); ok {
				c.Close()
			}
		}
		for _, a := range j.atts {
			if a.body == nil {
				continue
			}
			if msg := a.body.drained(); msg != "" && page == nil {
				e.Violate("C11", "undrained", "%s", msg)
			}
		}
	}
	ok := e.within(24*time.Hour, func() {
		for _, j := range r.jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				run(j)
			}()
		}
		wg.Wait()
	})
	if !ok {
		e.Violate("C10", "hang", "a fetch does not return within a day\n%s", firstLines(e.stack, 60))
		return
	}
	att := 0
	for _, j := range r.jobs {
		att += len(j.atts)
		if len(j.atts) == maxTry {
			e.Probe("all-attempts-used")
		}
	}
	e.nontriv = att >= 3
}

func (r *fetchRun) checkJob(j *fetchJob, page *ant.Page, err error, maxTry int, minB, maxB time.Duration, begin, end, at time.Duration, cancelled bool) {
	e := r.e
	n := len(j.atts)
	if page != nil && err != nil {
		e.Violate("C10", "both", "job %d returns a page and the error %v", j.i, err)
	}
	if n > maxTry {
		e.Violate("C10", "attempts", "job %d makes %d attempts, the maximum is %d", j.i, n, maxTry)
	}
	for k, a := range j.atts {
		if !a.ended {
			e.Violate("C10", "late", "job %d returns while attempt %d is running", j.i, k)
			return
		}
		if k+1 < n && !a.temp() {
			e.Violate("C10", "retries-permanent", "job %d retries although attempt %d ended with status %d error %v", j.i, k, a.status, a.err)
		}
		if k == 0 {
			continue
		}
		b := j.atts[k-1]
		from := b.end
		if b.body != nil {
			if b.body.closed == 0 {
				e.Violate("C11", "unclosed", "job %d makes attempt %d before the body of the previous answer is closed", j.i, k)
				continue
			}
			from = max(from, b.body.closeAt)
		}
		gap := a.start - from
		if gap < minB {
			e.Violate("C10", "backoff-short", "job %d waits %v before attempt %d, the minimum backoff is %v", j.i, gap, k, minB)
		}
		if gap+time.Microsecond < j.lastGap {
			e.Violate("C10", "backoff-shrinks", "job %d waits %v before attempt %d after waiting %v before the previous one", j.i, gap, k, j.lastGap)
		}
		j.lastGap = min(gap, maxB)
		if gap > maxB+time.Millisecond+time.Duration(runtime.SimStallNano()) {
			e.Violate("C10", "backoff-long", "job %d waits %v before attempt %d, the maximum backoff is %v", j.i, gap, k, maxB)
		}
	}
	if n == 0 {
		if !cancelled {
			e.Violate("C10", "attempts", "job %d returns %v without making a request", j.i, err)
		}
		return
	}
	last := j.atts[n-1]
	succ := last.err == nil && last.status < 400
	switch {
	case page != nil:
		if !succ {
			e.Violate("C10", "page", "job %d returns a page although attempt %d ended with status %d error %v", j.i, n-1, last.status, last.err)
			return
		}
		if page.URL.String() != last.resp.Request.URL.String() {
			e.Violate("C10", "page-url", "job %d: the page's URL is %s, the response is from %s", j.i, page.URL, last.resp.Request.URL)
		}
		if g := page.Header.Get("X-Attempt"); g != fmt.Sprintf("%d/%d", j.i, n-1) {
			e.Violate("C10", "page-header", "job %d: the page has the headers of answer %q instead of %d/%d", j.i, g, j.i, n-1)
		}
		if last.body.closed > 0 {
			e.Violate("C10", "page-closed", "job %d: the body of the returned page is closed", j.i)
			return
		}
		b, rerr := io.ReadAll(page.Body())
		want := r.body(j, n-1)
		kind := r.attempt(j, n-1).Kind
		switch {
		case last.status == 204 || last.status == 304:
		case kind == "status":
			want = bytes.Repeat([]byte("error page "), r.attempt(j, n-1).Body/11)
			fallthrough
		default:
			if rerr == nil && !bytes.Equal(b, want) {
				e.Violate("C10", "page-body", "job %d: the page's body is %q, the answer was %q", j.i, short(string(b)), short(string(want)))
			}
			if rerr == nil && kind == "trunc" {
				e.Violate("C10", "page-body", "job %d: a body that broke off reads without an error", j.i)
			}
		}
		if rerr != nil && !isCtx(rerr) && kind != "trunc" && at < 0 && r.p.ClientTO == 0 {
			e.Violate("C10", "page-body", "job %d: reading the page fails with %v", j.i, rerr)
		}
	case err == nil:
		if last.err != nil || last.status != 404 {
			e.Violate("C10", "nothing", "job %d returns neither a page nor an error although attempt %d ended with status %d error %v", j.i, n-1, last.status, last.err)
		}
	default:
		if cancelled {
			return
		}
		if succ || last.err == nil && last.status == 404 {
			e.Violate("C10", "error", "job %d returns %v although attempt %d ended with status %d", j.i, err, n-1, last.status)
			return
		}
		if last.temp() && n < maxTry {
			e.Violate("C10", "gives-up", "job %d gives up after %d of %d attempts although the last failure is temporary: %v", j.i, n, maxTry, err)
		}
		if last.err != nil {
			if !errors.Is(err, last.err) {
				e.Violate("C10", "wrap", "job %d returns %v, which does not wrap the last failure %v", j.i, err, last.err)
			}
		} else {
			var fe *ant.FetchError
			var fv ant.FetchError
			st := -1
			if errors.As(err, &fe) {
				st = fe.Status
			} else if errors.As(err, &fv) {
				st = fv.Status
			}
			if st != last.status {
				e.Violate("C10", "wrap", "job %d returns %v for status %d", j.i, err, last.status)
			}
		}
	}
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s… (%d bytes)", s[:60], len(s))
	}
	return s
}
