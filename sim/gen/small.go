package gen

import (
	"fmt"

	"verifsim/plan"
)

var smallAssume = []string{"Go's memory model on one processor: preemption happens only before statements of the repository and of its synchronising dependencies, or where a goroutine blocks"}

func init() {
	register(&Gen{Prop: "C12", World: "dedup", Quick: 4000, Make: dedup, Rule: "at least two clients and four calls",
		Real: []string{"ant.DedupeMap, ant.DedupeBF (instrumented)", "willf/bloom, sync.Map"}, Stub: []string{"the callers"}, Assume: smallAssume})
	register(&Gen{Prop: "C13", World: "queue", Quick: 4000, Make: queue, Rule: "at least five operations",
		Real: []string{"ant.MemoryQueue (instrumented)", "sync.Cond, sync.Mutex, context"}, Stub: []string{"the callers"}, Assume: smallAssume})
	register(&Gen{Prop: "C09", World: "limit", Quick: 4000, NoStall: true, Make: limit, Rule: "at least three matching requests (or eight events of a crawl)",
		Real: []string{"ant.Limit, LimitHostname, LimitPattern, LimitRegexp (instrumented)", "x/time/rate, tidwall/match, regexp", "in part of the runs the whole engine"}, Stub: []string{"the clock", "the callers, or network and scraper of the engine"}, Assume: smallAssume})
}

func dedup(r *R, p *plan.Plan, thorough bool) {
	d := &plan.Dedup{Kind: Pick(r, "map", "map", "bf", "bf", "bf"), URLs: r.In(1, 12)}
	if r.P(30) {
		d.URLs = r.In(10, 40)
	}
	if r.P(3) {
		d.URLs = r.In(100, 600)
	}
	d.M, d.K = 2000000, 5
	if r.P(40) {
		d.K = r.In(1, 4)
		d.M = Pick(r, 8, 64, 500, 4000, 100000)
	}
	for c := r.In(2, 6); c > 0; c-- {
		var cl [][]int
		for k := r.In(1, 4); k > 0; k-- {
			var in []int
			n := r.N(d.URLs + 3)
			if r.P(5) {
				n = 0
			}
			switch r.N(3) {
			case 0: // the same run of URLs as others
				from := r.N(3)
				for j := 0; j < n; j++ {
					in = append(in, (from+j)%d.URLs)
				}
			case 1:
				for j := 0; j < n; j++ {
					in = append(in, d.URLs-1-j%d.URLs)
				}
			default:
				for j := 0; j < n; j++ {
					in = append(in, r.N(d.URLs))
				}
			}
			cl = append(cl, in)
		}
		d.Clients = append(d.Clients, cl)
	}
	p.Dedup = d
}

func queue(r *R, p *plan.Plan, thorough bool) {
	q := &plan.Queue{MaxBatch: Pick(r, 0, 1, 5)}
	if r.P(2) {
		q.Flood = r.In(100, 3000)
	}
	nc := r.In(2, 5)
	total := r.In(5, 22)
	batch := 0
	sleeps := r.P(50)
	q.Clients = make([][]plan.QOp, nc)
	kind := r.N(4)
	for total > 0 {
		c := r.N(nc)
		total--
		var o plan.QOp
		switch k := r.N(100); {
		case kind == 1 && c == 0 && k < 60: // waiter
			o = plan.QOp{Op: "wait"}
		case kind == 2 && c == 0 && k < 70: // producer
			o = plan.QOp{Op: "enq", N: r.In(1, 3)}
		case k < 28:
			o = plan.QOp{Op: "enq", N: r.In(0, 4)}
		case k < 56:
			o = plan.QOp{Op: "deq"}
		case k < 78:
			o = plan.QOp{Op: "done"}
		case k < 87:
			o = plan.QOp{Op: "wait"}
		case k < 90:
			o = plan.QOp{Op: "close"}
		case k < 93:
			o = plan.QOp{Op: "cenq", N: r.In(0, 3)}
		case k < 97:
			o = plan.QOp{Op: "cdeq", N: Pick(r, 0, 0, r.In(1, 2000))}
		default:
			o = plan.QOp{Op: "sleep", N: r.In(1, 1000)}
		}
		if o.Op == "enq" {
			if batch += o.N; batch > 30 {
				o.N = 0
			}
		}
		if sleeps && r.P(25) {
			q.Clients[c] = append(q.Clients[c], plan.QOp{Op: "sleep", N: r.In(1, 1000)})
		}
		q.Clients[c] = append(q.Clients[c], o)
		if o.Op == "deq" && r.P(60) {
			q.Clients[c] = append(q.Clients[c], plan.QOp{Op: "done"})
		}
	}
	p.Queue = q
}

func limit(r *R, p *plan.Plan, thorough bool) {
	n := Pick(r, 1, 1, 2, 3, 5, 10, 50)
	if r.P(30) { // attached to an engine
		c := crawl(r, copt{transient: 5, notfound: 3, maxLat: 20000, variants: true, impolite: 70, maxPages: 30, cancel: 5})
		h := c.Hosts[0].Name
		c.Limiter = fmt.Sprintf("%s:%d", "limit", n)
		switch r.N(4) {
		case 1:
			c.Limiter = fmt.Sprintf("host:%d:%s", n, h)
		case 2:
			c.Limiter = fmt.Sprintf("pattern:%d:%s", n, Pick(r, h+"/*", "*/a*", "h?.test/*", "*"))
		case 3:
			c.Limiter = fmt.Sprintf("regexp:%d:%s", n, Pick(r, "^h0", "/(a|b|news)", "test/.", "^"+h+"/.*$"))
		}
		p.World, p.Crawl = "crawl", c
		return
	}
	l := &plan.Limit{N: n}
	l.Kind = Pick(r, "limit", "host", "pattern", "regexp")
	switch l.Kind {
	case "host":
		l.Arg = Pick(r, "h0.test", "h0.test:8080")
	case "pattern":
		l.Arg = Pick(r, "h0.test/*", "h0.test/a*", "*/a/b", "h?.test/a", "h0.test", "http://h0.test/*", "*", "h0.test/a?q=1", "*.test:8080/*")
	case "regexp":
		l.Arg = Pick(r, "^h0.test", "/a", "^h0.test/(a|b)$", "http", "q=1", "^/", `\.test:8080/`, ".*")
	}
	urls := []string{"http://h0.test/a", "http://h0.test/b", "https://h0.test/a?q=1", "http://h0.test/a/b", "http://h1.test/a", "http://h1.test/c?x=http://h0.test/a", "http://h0.test", "http://h0.test:8080/a", "http://h0.test/%61", "http://www.h0.test/a"}
	nc := r.In(1, 6)
	total := r.In(3, 4*n+20)
	if total > 90 {
		total = 90
	}
	l.Clients = make([]plan.LimClient, nc)
	burst := r.P(50)
	hot := r.N(len(urls))
	for i := 0; i < total; i++ {
		o := plan.LimOp{URL: urls[hot]}
		if r.P(40) {
			o.URL = Pick(r, urls...)
		}
		if !burst || r.P(20) {
			o.SleepUs = r.LogUs(3_000_000)
		}
		if r.P(12) {
			switch r.N(4) {
			case 0:
				o.CancelUs = -1
			case 1:
				o.CancelUs = -int64(r.In(2, 4_000_000))
			default:
				o.CancelUs = int64(1 + r.LogUs(4_000_000))
			}
		}
		c := r.N(nc)
		l.Clients[c].Ops = append(l.Clients[c].Ops, o)
	}
	p.Limit = l
}

func init() {
	register(&Gen{Prop: "C10", World: "fetch", Quick: 4000, NoStall: true, Make: fetch, Rule: "at least three attempts",
		Real: []string{"ant.Fetcher (instrumented)", "net/http client and transport (half of the runs)"}, Stub: []string{"network and web server", "clock"}, Assume: smallAssume})
}

func fetch(r *R, p *plan.Plan, thorough bool) {
	f := &plan.Fetch{Client: Pick(r, "stub", "http"), Max: Pick(r, 0, 0, 1, 2, 3, 5, 8)}
	if r.P(50) {
		f.MinMs = Pick(r, 1, 10, 50, 400)
		f.MaxMs = f.MinMs + Pick(r, 1, 5, 100, 3000)
	}
	if f.Client == "http" && r.P(30) {
		f.ClientTO = Pick(r, 300, 2000, 10000)
	}
	if r.P(30) {
		f.UA = "testbot/1"
	}
	stub := f.Client == "stub"
	long := r.P(3)
	if long {
		f.Max = Pick(r, 20, 40, 70, 100)
	}
	for n := r.In(1, 4); n > 0; n-- {
		j := plan.FetchJob{StartUs: r.LogUs(50000), BodyLen: Pick(r, 0, 100, 3000, 20000)}
		for k := r.N(7); k > 0; k-- {
			j.Attempts = append(j.Attempts, tempAttempt(r, stub))
			if a := &j.Attempts[len(j.Attempts)-1]; a.Kind == "hang" {
				if r.P(70) {
					a.Kind = "timeout"
				}
			}
		}
		if long {
			for k := r.In(8, 75); k > 0; k-- {
				j.Attempts = append(j.Attempts, plan.Attempt{Kind: Pick(r, "temp", "status"), Code: 503, Lat: r.LogUs(100)})
			}
		}
		last := plan.Attempt{Kind: "ok", Lat: r.LogUs(20000), Frame: r.N(3), Slow: Pick(r, 0, 0, 1, 500)}
		switch r.N(10) {
		case 0, 1:
			last = fatalAttempt(r, stub)
		case 2:
			last = plan.Attempt{Kind: "status", Code: 404, Body: r.N(5000), Frame: r.N(3), Lat: r.LogUs(5000)}
		case 3:
			last = plan.Attempt{Kind: "status", Code: Pick(r, 203, 204, 299, 300, 399, 304, 400, 401, 408, 418, 425, 500, 502, 505, 599), Body: r.N(300), Lat: r.LogUs(5000)}
		case 4:
			last = plan.Attempt{Kind: "trunc", Cut: r.N(990), Frame: r.N(3), Code: r.N(2)}
		case 5:
			last.Kind = "redirect"
		case 6:
			last = plan.Attempt{Kind: "errresp", Body: r.N(3000), Code: r.N(2)}
			if !stub {
				last = plan.Attempt{Kind: "reset"}
			}
		}
		if len(j.Attempts) == 0 || r.P(80) {
			j.Attempts = append(j.Attempts, last)
		}
		if r.P(25) {
			j.CancelUs = int64(1 + r.LogUs(5_000_000))
			j.Deadline = r.P(40)
			if r.P(10) {
				j.CancelUs, j.Deadline = -1, false
			}
		}
		f.Jobs = append(f.Jobs, j)
	}
	p.Fetch = f
}

func init() {
	real := []string{"ant.Page, List, JSON scraper, Fetcher, internal/scan, internal/selectors (instrumented)", "x/net/html, cascadia, encoding/json", "net/http client and transport (part of the runs)"}
	register(&Gen{Prop: "C15", World: "page", Quick: 3000, Make: page, Rule: "at least three page operations", Real: real, Stub: []string{"network and web server", "clock"}, Assume: smallAssume})
	register(&Gen{Prop: "C14", World: "json", Quick: 3000, Make: jsonGen, Rule: "at least two pages scraped", Real: real, Stub: []string{"network and web server", "the writer", "clock"}, Assume: smallAssume})
}

var vals = []string{"a", "", "b c", "ünï", "<tag> & \"quote\"", "line1\nline2", "\u2028", "🙂", "}{", "very long value very long value very long value", "\\n", "]}\n{\"title\":"}

func page(r *R, p *plan.Plan, thorough bool) {
	g := &plan.PageP{Doc: r.N(10), Cut: 1000, LatUs: Pick(r, 0, 0, 1, 100), Frame: r.N(3), HTTP: r.P(30), Pad: Pick(r, 0, 0, 5000, 20000)}
	for k := r.N(6); k > 0; k-- {
		g.Items = append(g.Items, Pick(r, vals...))
	}
	if r.P(50) {
		g.Cut = r.N(1000)
		if r.P(10) {
			g.Cut = 0
		}
	}
	for c := r.In(1, 5); c > 0; c-- {
		var ops []string
		for k := r.In(1, 5); k > 0; k-- {
			ops = append(ops, Pick(r, "doc", "html", "scan", "next", "urls", "query", "text", "yield"))
		}
		g.Callers = append(g.Callers, ops)
	}
	p.Page = g
}

func jsonGen(r *R, p *plan.Plan, thorough bool) {
	j := &plan.JSON{Short: Pick(r, 0, 1, 7, 64), LatUs: Pick(r, 0, 1, 10, 1000), Engine: r.P(30), HTTP: r.P(25), Type: r.N(4)}
	if r.P(4) {
		j.Type = 4
	}
	if j.Short > 0 && j.Short < 7 && j.LatUs > 10 {
		j.LatUs = 10
	}
	if r.P(40) {
		j.Selectors = []string{Pick(r, "a.next", "a.next", ".none")}
		if j.Engine {
			j.Selectors = []string{"a.next"}
		}
	}
	n := r.In(1, 9)
	for i := 0; i < n; i++ {
		g := plan.JSONPage{Cut: 1000, Title: Pick(r, vals...), StartUs: r.LogUs(200), Frame: r.N(3)}
		for k := r.N(5); k > 0; k-- {
			g.Vals = append(g.Vals, Pick(r, vals...))
		}
		if r.P(40) && !j.Engine {
			g.Links = r.N(6)
		}
		if r.P(15) && !(j.Engine && i == 0) {
			g.Cut = r.N(1000)
		}
		if r.P(15) {
			g.Pad = r.In(100, 12000)
			if r.P(8) {
				g.Pad = r.In(60000, 140000)
			}
		}
		if r.P(20) {
			g.Slow = r.LogUs(200)
		}
		j.Pages = append(j.Pages, g)
	}
	if r.P(35) {
		for k := r.In(1, 2); k > 0; k-- {
			j.FailAt = append(j.FailAt, r.N(n))
		}
		j.FailFrac = Pick(r, 0, 500, r.N(1000), 990, 1000)
		j.Temp = r.P(20)
		if r.P(30) {
			// the crawl tries again
			j.Temp, j.Engine, j.FailFrac = true, true, 0
			j.Attempts = r.In(2, 4)
			for k := r.N(4); k > 0; k-- {
				j.FailAt = append(j.FailAt, r.N(n+2))
			}
			for i := range j.Pages {
				j.Pages[i].Links = 0
			}
			if len(j.Selectors) > 0 {
				j.Selectors = []string{"a.next"}
			}
			j.Pages[0].Cut = 1000
		}
	}
	p.JSON = j
}
