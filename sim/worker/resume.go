package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/yields/ant"
	"verifsim/plan"
)

func init() { worlds["resume"] = resumeWorld }

// resumeRun is a crawl whose queue survives crashes of the process.
type resumeRun struct {
	e       *Env
	p       *plan.Resume
	pending []string
	flight  map[string]int
	acked   map[int]bool
	scraped map[int]int
	reqs    []int
	scrs    []int
	life    *life
	lives   int
	started bool // the start URLs are queued
	lossy   bool // a life failed or was cancelled
	acks    int
}

// life is one execution of the process.
type life struct {
	r      *resumeRun
	n      int
	plan   plan.Life
	dead   bool
	over   bool
	failed bool
	crash  chan struct{}
	cancel context.CancelFunc
	events int
	cond   *sync.Cond
	closed bool
	took   map[string]int
	done   map[string]int
}

func (r *resumeRun) url(i int) string { return fmt.Sprintf("http://r.test/p/%d", i) }

func (r *resumeRun) page(u string) int {
	i, err := strconv.Atoi(strings.TrimPrefix(u, "http://r.test/p/"))
	if err != nil || i < 0 || i >= len(r.p.Pages) || r.url(i) != u {
		return -1
	}
	return i
}

func (r *resumeRun) rejects(i int) bool { return r.p.Match>>(uint(i)%64)&1 == 1 }

// gate is passed by everything the process does that others can observe.
func (l *life) gate(f string, a ...any) {
	if l.dead {
		select {}
	}
	if l.over {
		l.r.e.V("late", "%s happens after Run has returned", fmt.Sprintf(f, a...))
	}
	l.events++
	l.r.e.Logf("life %d: "+f, append([]any{l.n}, a...)...)
	if l.events == l.plan.Crash {
		l.r.e.Fault("crash")
		l.r.e.Logf("life %d crashes", l.n)
		l.dead = true
		close(l.crash)
		select {}
	}
	if l.events == l.plan.Cancel {
		l.r.e.Fault("cancel")
		l.failed = true
		l.cancel()
	}
}

func (l *life) check() {
	if l.dead {
		select {}
	}
}

// closure adds all pages that are found from i.
func (r *resumeRun) closure(got map[int]bool, i int) {
	if i < 0 || got[i] {
		return
	}
	got[i] = true
	p := r.p.Pages[i]
	if a := p.Answer; len(a) > 0 && a[len(a)-1] == "404" {
		return
	}
	for _, k := range p.Links {
		if !r.rejects(k) {
			r.closure(got, k)
		}
	}
}

func (r *resumeRun) reachable() map[int]bool {
	got := map[int]bool{}
	for _, i := range r.p.Starts {
		if !r.rejects(i) {
			r.closure(got, i)
		}
	}
	return got
}

// lost looks for a page that a crash at this moment would lose.
func (r *resumeRun) lost(when string) {
	if r.lossy || r.life.failed || !r.started {
		return
	}
	safe := map[int]bool{}
	for _, u := range r.pending {
		r.closure(safe, r.page(u))
	}
	for u := range r.flight {
		r.closure(safe, r.page(u))
	}
	want := r.reachable()
	for i := range r.p.Pages {
		if want[i] && !r.acked[i] && !safe[i] {
			r.e.V("lost", "%s page %d is neither done nor queued, nor linked from a page that is queued or in progress: a crash would lose it", when, i)
			return
		}
	}
}

// The persistent queue.

func (l *life) lat() {
	if l.r.p.QLat > 0 {
		time.Sleep(us(l.r.p.QLat))
	}
}

func (l *life) Enqueue(ctx context.Context, urls ant.URLs) error {
	l.gate("enqueue %d urls", len(urls))
	l.lat()
	l.check()
	r := l.r
	if err := ctx.Err(); err != nil {
		return err
	}
	if l.closed {
		return io.EOF
	}
	for _, u := range urls {
		if i := r.page(u.String()); i < 0 || r.rejects(i) {
			r.e.V("foreign", "%s is queued", u)
		}
		r.pending = append(r.pending, u.String())
	}
	r.started = true
	l.cond.Broadcast()
	l.gate("enqueued %d urls", len(urls))
	return nil
}

func (l *life) Dequeue(ctx context.Context) (*ant.URL, error) {
	l.check()
	r := l.r
	l.lat()
	l.cond.L.Lock()
	defer l.cond.L.Unlock()
	for len(r.pending) == 0 {
		if l.dead {
			l.cond.L.Unlock()
			select {}
		}
		if l.closed {
			return nil, io.EOF
		}
		if err := ctx.Err(); err != nil {
			return nil, err
		}
		l.cond.Wait()
	}
	if l.dead {
		l.cond.L.Unlock()
		select {}
	}
	if l.closed {
		return nil, io.EOF
	}
	s := r.pending[0]
	r.pending = r.pending[1:]
	r.flight[s]++
	l.took[s]++
	l.gate("dequeue %s", s)
	u, _ := url.Parse(s)
	return u, nil
}

func (l *life) Done(ctx context.Context, u *ant.URL) error {
	r := l.r
	s := u.String()
	l.gate("done %s", s)
	if err := ctx.Err(); err != nil && !l.failed && !r.lossy {
		r.e.V("ack", "%s is acknowledged with a context that has ended: %v", s, err)
	}
	l.lat()
	l.check()
	l.done[s]++
	if r.flight[s] == 0 {
		r.e.V("ack", "%s is acknowledged although it is not in progress (taken %d times, acknowledged %d times)", s, l.took[s], l.done[s])
		return nil
	}
	if r.flight[s]--; r.flight[s] == 0 {
		delete(r.flight, s)
	}
	if i := r.page(s); i >= 0 {
		if !l.failed && !r.lossy && r.scraped[i] == 0 && !r.gone(i) {
			r.e.V("early", "page %d is acknowledged before it was scraped", i)
		}
		r.acked[i] = true
	}
	r.acks++
	r.lost(fmt.Sprintf("%s is acknowledged, and", s))
	l.cond.Broadcast()
	l.gate("done %s recorded", s)
	return nil
}

func (r *resumeRun) gone(i int) bool {
	a := r.p.Pages[i].Answer
	return len(a) > 0 && a[len(a)-1] == "404" && r.reqs[i] > 0
}

func (l *life) Wait() {
	l.check()
	l.cond.L.Lock()
	defer l.cond.L.Unlock()
	for len(l.r.flight) > 0 || len(l.r.pending) > 0 && !l.closed {
		if l.dead {
			l.cond.L.Unlock()
			select {}
		}
		l.cond.Wait()
	}
}

func (l *life) Close(context.Context) error {
	if l.over {
		return nil
	}
	l.gate("close")
	l.closed = true
	l.cond.Broadcast()
	return nil
}

// Do answers requests.
func (l *life) Do(req *http.Request) (*http.Response, error) {
	r := l.r
	i := r.page(req.URL.String())
	l.gate("request %s", req.URL)
	if i < 0 {
		r.e.V("foreign", "%s is requested", req.URL)
		return nil, newErr("no such page", false)
	}
	p := r.p.Pages[i]
	k := r.reqs[i]
	r.reqs[i]++
	err := sleepCtx(req.Context(), us(p.Lat))
	l.check()
	fail := func(err error) (*http.Response, error) {
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	if err != nil {
		return fail(err)
	}
	kind := ""
	if len(p.Answer) > 0 {
		kind = p.Answer[min(k, len(p.Answer)-1)]
	}
	code := 200
	switch kind {
	case "", "redirect":
	case "404", "503":
		r.e.Fault("status-" + kind)
		code, _ = strconv.Atoi(kind)
	default:
		r.e.Fault("net-" + kind)
		l.failed = l.failed || kind == "perm"
		return fail(newErr("request failure", kind != "perm"))
	}
	if kind == "redirect" {
		// the client has followed a redirect
		r.e.Fault("redirect")
		u, _ := url.Parse(fmt.Sprintf("http://r.test/final/%d", i))
		req = req.Clone(req.Context())
		req.URL = u
	}
	var b strings.Builder
	fmt.Fprintf(&b, "<html><body>page %d", i)
	for _, k := range p.Links {
		fmt.Fprintf(&b, "<a href=\"/p/%d\">x</a>", k)
	}
	return &http.Response{StatusCode: code, Status: itoa(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"text/html; charset=utf-8"}}, Request: req, ContentLength: -1, Body: io.NopCloser(strings.NewReader(b.String()))}, nil
}

// Scrape is the scraper.
func (l *life) Scrape(ctx context.Context, p *ant.Page) (ant.URLs, error) {
	r := l.r
	i := r.page(strings.Replace(p.URL.String(), "/final/", "/p/", 1))
	l.gate("scrape page %d", i)
	if i < 0 {
		r.e.V("foreign", "%s is scraped", p.URL)
		return nil, nil
	}
	k := r.scrs[i]
	r.scrs[i]++
	err := sleepCtx(ctx, us(r.p.Pages[i].ScrLat))
	l.check()
	if err != nil {
		return nil, err
	}
	kind := ""
	if s := r.p.Pages[i].Scr; len(s) > 0 {
		kind = s[min(k, len(s)-1)]
	}
	if kind != "" {
		r.e.Fault("scraper-" + kind)
		l.failed = l.failed || kind == "perm"
		return nil, newErr("scraper failure", kind == "temp")
	}
	var urls ant.URLs
	if r.p.Direct {
		for _, k := range r.p.Pages[i].Links {
			u, _ := url.Parse(r.url(k))
			urls = append(urls, u)
		}
	} else {
		urls = p.URLs()
	}
	r.scraped[i]++
	l.gate("scraped page %d, %d links", i, len(urls))
	return urls, nil
}

// Limit is the limiter.
func (l *life) Limit(ctx context.Context, u *ant.URL) error {
	l.check()
	err := sleepCtx(ctx, us(l.r.p.Limiter))
	l.check()
	return err
}

func resumeWorld(e *Env) {
	p := e.P.Resume
	r := &resumeRun{e: e, p: p, flight: map[string]int{}, acked: map[int]bool{}, scraped: map[int]int{}, reqs: make([]int, len(p.Pages)), scrs: make([]int, len(p.Pages))}
	var starts []string
	for _, i := range p.Starts {
		if i >= len(p.Pages) {
			return
		}
		starts = append(starts, r.url(i))
	}
	for i := range p.Pages {
		for _, k := range p.Pages[i].Links {
			if k >= len(p.Pages) {
				return
			}
		}
	}
	crashed := 0
	lives := append(append([]plan.Life{}, p.Lives...), plan.Life{})
	for n, lp := range lives {
		l := &life{r: r, n: n, plan: lp, crash: make(chan struct{}), took: map[string]int{}, done: map[string]int{}, cond: sync.NewCond(&sync.Mutex{})}
		r.life = l
		// what was in progress is delivered again
		var again []string
		for u, k := range r.flight {
			for ; k > 0; k-- {
				again = append(again, u)
			}
		}
		sortStr(again)
		r.flight = map[string]int{}
		if lp.Front {
			r.pending = append(again, r.pending...)
		} else {
			r.pending = append(r.pending, again...)
		}
		f := &ant.Fetcher{Client: l}
		cfg := ant.EngineConfig{Scraper: l, Fetcher: f, Queue: l, Workers: p.Workers, Concurrency: p.Conc, Impolite: true}
		if p.Limiter > 0 {
			cfg.Limiter = ant.LimiterFunc(l.Limit)
		}
		if p.Match != 0 {
			cfg.Matcher = ant.MatcherFunc(func(u *url.URL) bool { i := r.page(u.String()); return i >= 0 && !r.rejects(i) })
		}
		switch p.Dedup {
		case "map":
			cfg.Deduper = ant.DedupeMap()
		case "bf":
			cfg.Deduper = ant.DedupeBF(2000000, 5)
		}
		eng, err := ant.NewEngine(cfg)
		if err != nil {
			e.V("new", "NewEngine failed: %v", err)
			return
		}
		var ctx context.Context
		ctx, l.cancel = context.WithCancel(context.Background())
		var in []string
		if !r.started || lp.Starts {
			in = starts
		}
		e.Logf("life %d begins, %d urls queued, %d starts", n, len(r.pending), len(in))
		done := make(chan struct{})
		var rerr error
		go func() {
			defer close(done)
			rerr = eng.Run(ctx, in...)
			if l.dead {
				select {}
			}
			l.over = true
		}()
		t := time.NewTimer(24 * time.Hour)
		select {
		case <-done:
		case <-l.crash:
			crashed++
			r.lossy = r.lossy || l.failed
			l.cond.Broadcast()
			t.Stop()
			continue
		case <-t.C:
			e.stack = allStacks()
			e.V("hang", "life %d has not ended: %d urls queued, %d in progress", n, len(r.pending), len(r.flight))
			return
		}
		t.Stop()
		l.cancel()
		e.Logf("life %d: Run returned %v", n, rerr)
		for _, u := range sortedKeys(l.took) {
			if l.took[u] != l.done[u] {
				e.V("unacked", "%s was taken from the queue %d times but acknowledged %d times when Run returned (%v)", u, l.took[u], l.done[u], rerr)
				return
			}
		}
		if l.failed {
			r.lossy = true
			if rerr == nil && l.plan.Cancel == 0 {
				e.V("swallowed", "life %d failed but Run reports success", n)
			}
			e.Probe("failed-life")
			continue
		}
		if rerr != nil {
			e.V("spurious", "nothing failed but Run returns %v", rerr)
			return
		}
		if len(r.pending) > 0 || len(r.flight) > 0 {
			e.V("left", "Run reports success with %d urls queued and %d in progress", len(r.pending), len(r.flight))
			return
		}
		if !r.lossy && r.started {
			want := r.reachable()
			for i := range p.Pages {
				if want[i] && r.scraped[i] == 0 && !r.gone(i) {
					e.V("missing", "the crawl reports success after %d crashes but page %d was never scraped", crashed, i)
					return
				}
			}
			e.Probe("complete")
			if crashed > 0 {
				e.Probe("complete-after-crash")
			}
		}
	}
	e.nontriv = r.acks >= 3 && len(p.Pages) > 2
	time.Sleep(5 * time.Second)
}

func sortedKeys(m map[string]int) []string {
	var ret []string
	for k := range m {
		ret = append(ret, k)
	}
	sortStr(ret)
	return ret
}
