package gen

import (
	"fmt"
	"strings"

	"verifsim/plan"
)

var crawlReal = []string{"ant engine, fetcher, page, queue, dedupers, matchers, limiters (repository code, instrumented)", "internal/robots, internal/normalize", "x/sync errgroup and semaphore, x/time/rate, agecache, robotstxt, bloom", "net/http client and transport (in part of the runs)", "Go runtime scheduler, timers, sync, context (driven by the simulator)"}
var crawlStub = []string{"network and web servers (simulated connections or a scripted client)", "clock", "scraper, and in part of the runs limiter/deduper/queue wrappers that inject failures"}
var crawlAssume = []string{"Go's memory model on one processor: preemption happens only before statements of the repository and of its synchronising dependencies, or where a goroutine blocks", "the standard library outside the seams is correct"}

// copt tunes the crawl generator.
type copt struct {
	maxPages   int
	transient  int // percent of pages with temporary failures
	fatal      int // percent of plans with one or two fatal failures
	notfound   int // percent of pages answering 404 (not linked by need)
	scrTemp    int
	cancel     int
	anyPattern bool
	robots     int // percent of hosts with robots rules
	delay      int // percent of hosts with a crawl delay
	robotFault int
	limiter    int
	matcher    int
	redirect   int
	maxLat     int
	variants   bool
	impolite   int
	client     []string
	dedup      []string
	trunc      int
	longLat    int // percent of pages with very long latencies
}

var names = []string{"h0.test", "h1.test", "www.h2.test", "h3.test:8080"}

func crawlPages(r *R, c *plan.Crawl, o copt) {
	nh := r.In(1, 3)
	if r.P(40) {
		nh = 1
	}
	c.Hosts = nil
	for i := 0; i < nh; i++ {
		c.Hosts = append(c.Hosts, plan.Host{Name: names[i+r.N(2)*0]})
		if c.Client == "stub" && r.P(20) {
			c.Hosts[i].TLS = true
		}
	}
	if r.P(20) && nh > 1 {
		c.Hosts[nh-1].Name = names[3]
	}
	if c.Client == "stub" && r.P(10) && nh > 1 && !c.Hosts[0].TLS {
		c.Hosts[nh-1] = plan.Host{Name: names[0] + ":8081"} // same name, other port
	}
	n := r.In(2, o.maxPages)
	if r.P(25) {
		n = r.In(2, 5)
	}
	big := r.N(1000) < 12
	if big {
		n = r.In(70, 300)
		o.maxLat = min(o.maxLat, 5000)
	}
	type pq struct{ p, q string }
	used := map[string]bool{}
	add := func(h int, p, q string) bool {
		k := fmt.Sprintf("%d%s?%s", h, p, q)
		if used[k] || len(c.Pages) >= n {
			return false
		}
		used[k] = true
		pg := plan.Page{Host: h, Path: p, Query: q, ScrMode: Pick(r, 0, 0, 1, 2, 3, 4, 5, 6), Junk: r.P(10)}
		if o.maxLat > 0 {
			pg.Lat = r.LogUs(o.maxLat)
			pg.ScrLat = r.LogUs(o.maxLat)
		}
		if r.P(15) {
			pg.Size = r.In(500, 9000)
		}
		if r.P(10) {
			pg.Slow = r.LogUs(20000)
		}
		pg.Frame = r.N(3)
		c.Pages = append(c.Pages, pg)
		return true
	}
	add(0, "/", "")
	words := []string{"a", "b", "news", "item", "A", "x.html", "index.html", "~u", "p-1", "p_2", "q", "deep"}
	for tries := 0; len(c.Pages) < n && tries < 600; tries++ {
		h := r.N(nh)
		p := ""
		for d := r.In(1, 3); d > 0; d-- {
			p += "/" + Pick(r, words...)
		}
		q := ""
		if r.P(25) {
			q = fmt.Sprintf("k=%d", r.N(3))
			if r.P(50) {
				q += fmt.Sprintf("&l=%d", r.N(2))
			}
		}
		if !add(h, p, q) {
			continue
		}
		if !o.variants {
			continue
		}
		// near misses: different URLs that must stay different
		if r.P(20) {
			add(h, p+"/", q)
		}
		if r.P(10) {
			add(h, p+"%2Fz", q)
			add(h, p+"/z", q)
		}
		if r.P(6) {
			add(h, p+"%20s", q)
		}
		if r.P(6) {
			add(h, p+"%C3%A9", q)
		}
		if r.P(8) {
			add((h+1)%nh, p, q)
		}
		if r.P(6) {
			add(h, p, "k=1%262")
		}
		if r.P(6) {
			add(h, p, "k=a%2Fb")
			add(h, p, "k=a/b")
		}
		if r.P(4) {
			add(h, p+"%7C", q)
		}
		if r.P(5) {
			add(h, "/", "k=9")
		}
	}
	variant := func() int {
		if o.variants && r.P(45) {
			return r.In(1, 15)
		}
		return Pick(r, 0, 0, 8)
	}
	link := func(to int) plan.Link {
		l := plan.Link{To: to, Var: variant()}
		if o.variants && r.P(40) {
			l.Var2 = Pick(r, 1, 2, 3, 4, 5, 6, 7, 9)
		}
		return l
	}
	np := len(c.Pages)
	shape := r.N(5)
	if big {
		shape = r.N(2) // very deep or very wide
	}
	for i := 1; i < np; i++ {
		from := r.N(i)
		switch shape {
		case 0:
			from = i - 1
		case 1:
			from = 0
		case 2:
			from = (i - 1) / 2
		}
		c.Pages[from].Links = append(c.Pages[from].Links, link(i))
	}
	extra := r.N(2*min(np, 60) + 1)
	for k := 0; k < extra; k++ {
		from, to := r.N(np), r.N(np)
		if r.P(30) {
			to = 0
		}
		c.Pages[from].Links = append(c.Pages[from].Links, link(to))
	}
	// a page many others discover at the same moment
	if np > 3 && r.P(40) {
		t := r.In(1, np-1)
		for i := range c.Pages {
			if r.P(60) {
				c.Pages[i].Links = append(c.Pages[i].Links, link(t))
			}
		}
	}
	c.Starts = []plan.Link{link(0)}
	for k := r.N(3); k > 0; k-- {
		c.Starts = append(c.Starts, link(r.N(np)))
	}
	if r.P(20) { // scrapers that enqueue
		for i := range c.Pages {
			p := &c.Pages[i]
			if len(p.Links) > 0 && r.P(40) {
				k := r.N(len(p.Links))
				p.Enq = append(p.Enq, p.Links[k:]...)
				p.Links = p.Links[:k:k]
			} else if r.P(20) {
				p.Enq = append(p.Enq, link(r.N(np)))
			}
			p.EnqLate = r.P(50)
		}
	}
	if r.P(10) {
		for k := r.In(1, 3); k > 0; k-- {
			c.Pre = append(c.Pre, link(r.N(np)))
		}
		if r.P(30) {
			c.Starts = nil
		}
	}
	c.Share = r.P(20)
}

var tempKinds = []plan.Attempt{
	{Kind: "status", Code: 503}, {Kind: "status", Code: 503, Body: 5000}, {Kind: "status", Code: 429, Body: 30}, {Kind: "status", Code: 504},
	{Kind: "timeout"}, {Kind: "dnstemp"}, {Kind: "temp"}, {Kind: "hang"},
}

func tempAttempt(r *R, stub bool) plan.Attempt {
	a := Pick(r, tempKinds...)
	a.Lat = r.LogUs(5000)
	a.Frame = r.N(3)
	if stub && r.P(10) {
		a = plan.Attempt{Kind: "errresp", Code: 1, Body: r.N(3000)}
	}
	return a
}

func fatalAttempt(r *R, stub bool) plan.Attempt {
	a := Pick(r, plan.Attempt{Kind: "status", Code: 500, Body: 100}, plan.Attempt{Kind: "status", Code: 403}, plan.Attempt{Kind: "status", Code: 410, Body: 40},
		plan.Attempt{Kind: "status", Code: 502}, plan.Attempt{Kind: "refuse"}, plan.Attempt{Kind: "dns"}, plan.Attempt{Kind: "reset"}, plan.Attempt{Kind: "perm"})
	a.Lat = r.LogUs(5000)
	if stub && r.P(10) {
		a = plan.Attempt{Kind: "errresp", Body: r.N(3000)}
	}
	return a
}

func rules(r *R, c *plan.Crawl, h int) []plan.Rule {
	cands := []string{"/a", "/b", "/news", "/item/", "/A", "/x.html", "/q/", "/a/b", "/news/item", "/p", "/deep", "/~u"}
	for _, p := range c.Pages {
		if p.Host == h && p.Path != "/" && r.P(25) {
			cands = append(cands, p.Path)
		}
		if p.Host == h && p.Query != "" && r.P(40) {
			cands = append(cands, p.Path+"?"+p.Query, p.Path+"?"+p.Query[:2], p.Path+"?")
		}
	}
	var ret []plan.Rule
	if r.P(8) { // patterns; their precedence is undefined, so they all exclude
		for k := r.In(1, 2); k > 0; k-- {
			ret = append(ret, plan.Rule{Path: Pick(r, "/*?k=1", "/*?*l=", "/*.html$", "/*%2F", "/*/item", "/*?k=0$")})
		}
		if c.AnyPattern {
			ret[0].Path = Pick(r, "/a*b", "/b$", "/news*item", "/a*k=")
		}
		return ret
	}
	seen := map[int]bool{}
	for k := r.In(1, 3); k > 0; k-- {
		p := Pick(r, cands...)
		if seen[len(p)] {
			continue // rules of equal length could tie
		}
		seen[len(p)] = true
		ret = append(ret, plan.Rule{Allow: r.P(25), Path: respell(r, p)})
	}
	if r.P(12) {
		ret = append(ret, plan.Rule{Path: "/"})
	}
	if len(ret) == 0 {
		ret = []plan.Rule{{Path: "/a"}}
	}
	return ret
}

// respell escapes a rule in another way.
func respell(r *R, p string) string {
	if r.P(60) {
		return p
	}
	switch r.N(3) {
	case 0:
		for i := 1; i < len(p); i++ {
			if ('a' <= p[i] && p[i] <= 'z' || p[i] == '~') && r.P(40) && p[i-1] != '%' {
				return p[:i] + fmt.Sprintf("%%%02x", p[i]) + p[i+1:]
			}
		}
	case 1:
		return strings.ReplaceAll(strings.ReplaceAll(p, "%C3%A9", "\u00e9"), "%7C", "|")
	default:
		return strings.ReplaceAll(strings.ReplaceAll(p, "%2F", "%2f"), "%C3%A9", "%c3%a9")
	}
	return p
}

func crawl(r *R, o copt) *plan.Crawl {
	if o.maxPages == 0 {
		o.maxPages = 14
	}
	c := &plan.Crawl{Workers: Pick(r, 0, 1, 1, 2, 2, 3, 4, 8), Conc: Pick(r, 0, 0, 1, 1, 2, 3, 5), NoQueue: r.P(50), AnyPattern: o.anyPattern}
	if r.P(4) {
		c.Workers = r.In(5, 50)
	}
	if r.P(4) {
		c.Conc = r.In(6, 50)
	}
	if len(o.client) == 0 {
		o.client = []string{"stub", "stub", "stub", "http", "default"}
	}
	c.Client = Pick(r, o.client...)
	if len(o.dedup) == 0 {
		o.dedup = []string{"", "map", "bf"}
	}
	c.Deduper = Pick(r, o.dedup...)
	if r.P(25) {
		c.DedupLat = r.LogUs(3000)
	}
	c.MaxTry = Pick(r, 0, 0, 2, 3)
	maxTry := c.MaxTry
	if maxTry == 0 {
		maxTry = 5
	}
	c.Impolite = r.P(o.impolite)
	if r.P(20) {
		o.maxLat = 0
	}
	crawlPages(r, c, o)
	stub := c.Client == "stub"
	for i := range c.Pages {
		p := &c.Pages[i]
		if r.P(o.transient) {
			for k := r.In(1, maxTry-1); k > 0; k-- {
				p.Attempts = append(p.Attempts, tempAttempt(r, stub))
			}
			p.Attempts = append(p.Attempts, plan.Attempt{Kind: "ok"})
		} else if i > 0 && r.P(o.notfound) {
			p.Attempts = []plan.Attempt{{Kind: "status", Code: 404, Body: r.N(2) * r.N(4000), Frame: r.N(3)}}
			if r.P(20) {
				p.Attempts = append([]plan.Attempt{tempAttempt(r, stub)}, p.Attempts...)
			}
		} else if r.P(o.redirect) {
			p.Attempts = []plan.Attempt{{Kind: "redirect"}}
			p.Junk = false
			for j := range p.Links {
				if p.Links[j].Var == 13 {
					p.Links[j].Var = 0
				}
			}
		}
		if r.P(o.scrTemp) {
			for k := r.In(1, min(3, maxTry-1)); k > 0; k-- {
				p.ScrFail = append(p.ScrFail, "temp")
			}
			p.ScrFail = append(p.ScrFail, "")
		}
		if r.P(o.longLat) {
			p.ScrLat = r.In(200, 1500) * 1_000_000
		}
	}
	if r.P(o.fatal) {
		for k := r.In(1, 2); k > 0; k-- {
			i := r.N(len(c.Pages))
			p := &c.Pages[i]
			switch r.N(9) {
			case 0, 1:
				p.Attempts = append(p.Attempts[:0:0], fatalAttempt(r, stub))
			case 2:
				p.Attempts = nil
				t := tempAttempt(r, stub)
				if t.Kind == "hang" {
					t.Kind = "timeout"
				}
				p.Attempts = []plan.Attempt{t}
			case 3, 4:
				p.ScrFail = []string{"perm"}
			case 5:
				if c.Limiter == "" {
					c.Limiter = "rec"
				}
				c.LimFail = append(c.LimFail, plan.Fail{At: r.N(len(c.Pages)), Kind: "perm"})
			case 6:
				c.DedFail = append(c.DedFail, plan.Fail{At: r.N(len(c.Pages)), Kind: "perm"})
			case 7:
				c.NoQueue = false
				if r.P(25) {
					c.CloseFail = Pick(r, "before", "after")
				} else if r.P(50) {
					c.EnqFail = append(c.EnqFail, plan.Fail{At: r.N(len(c.Pages)), Kind: "perm"})
				} else {
					c.DeqFail = append(c.DeqFail, plan.Fail{At: r.N(len(c.Pages)), Kind: "perm"})
				}
			case 8:
				p.Attempts = []plan.Attempt{{Kind: "trunc", Cut: r.N(1000), Frame: r.N(3)}}
				p.ScrMode = Pick(r, 1, 3)
			}
		}
	}
	for h := range c.Hosts {
		if r.P(o.robots) {
			rb := plan.Robots{Lat: r.LogUs(o.maxLat), Kind: Pick(r, "ok", "ok", "ok", "ok", "redir", "nonauth")}
			if r.P(15) {
				rb.Pad = r.N(300)
				if r.P(5) {
					rb.Pad = r.In(2000, 16000)
				}
			}
			if r.P(30) {
				rb.Style = r.N(256)
			}
			if r.P(60) {
				rb.Rules = rules(r, c, h)
			}
			if r.P(60) || len(rb.Rules) == 0 {
				rb.Star = rules(r, c, h)
			}
			if r.P(40) {
				rb.Other = []plan.Rule{{Path: "/"}}
			}
			c.Hosts[h].Robots = []plan.Robots{rb}
		} else if r.P(60) {
			c.Hosts[h].Robots = []plan.Robots{{Kind: Pick(r, "none", "gone", "forbid"), Lat: r.LogUs(o.maxLat)}}
		}
		if r.P(o.delay) {
			d := Pick(r, 100, 500, 1000, 1300, 2500, 10000, 70000)
			if len(c.Hosts[h].Robots) == 0 || c.Hosts[h].Robots[0].Kind != "ok" {
				c.Hosts[h].Robots = []plan.Robots{{Kind: "ok", Lat: r.LogUs(o.maxLat)}}
			}
			rb := &c.Hosts[h].Robots[0]
			if r.P(70) {
				rb.DelayMs = d
			} else {
				if len(rb.Star) == 0 {
					rb.Star = []plan.Rule{{Path: "/none"}}
				}
				rb.StarDelayMs = d
			}
		}
		if r.P(o.robotFault) {
			c.Hosts[h].Robots = []plan.Robots{{Kind: Pick(r, "refuse", "dns", "reset", "trunc", "timeout", "hang"), Star: []plan.Rule{{Path: "/a"}, {Path: "/bb"}}, Lat: r.LogUs(5000)}}
		}
	}
	if r.P(o.limiter) && c.Limiter == "" {
		c.Limiter = "rec"
	}
	if c.Limiter == "rec" {
		c.LimLat = r.LogUs(o.maxLat)
	}
	if r.P(o.matcher) {
		c.Matcher = Pick(r, "host:"+c.Hosts[0].Name, "pattern:"+c.Hosts[0].Name+"/*", "pattern:*/a*", "pattern:*.test*/?*", "regexp:^h0", "regexp:/(a|b|news)", "func:1", "func:2", "func:3")
	}
	if r.P(o.cancel) {
		switch r.N(10) {
		case 0:
			c.CancelUs, c.Deadline = -1, r.P(50)
		case 1, 2, 3, 4:
			c.CancelEv = r.In(1, 10+6*len(c.Pages))
		default:
			c.CancelUs = int64(r.In(1, 40)) * int64(1+r.LogUs(max(o.maxLat, 1000))) / 4
			if c.CancelUs < 1 {
				c.CancelUs = 1
			}
			c.Deadline = r.P(35)
		}
	}
	c.ScrIdle = r.P(20)
	if r.P(15) {
		c.Cache = Pick(r, "rfc", "aggressive")
	}
	return c
}

func init() {
	mk := func(o copt) func(*R, *plan.Plan, bool) {
		return func(r *R, p *plan.Plan, thorough bool) {
			o := o
			if thorough && r.P(20) {
				o.maxPages = 60
			}
			p.Crawl = crawl(r, o)
		}
	}
	reg := func(prop string, quick int, nostall bool, rule string, f func(r *R, p *plan.Plan, thorough bool)) {
		register(&Gen{Prop: prop, World: "crawl", Quick: quick, NoStall: nostall, Make: f, Rule: rule, Real: crawlReal, Stub: crawlStub, Assume: crawlAssume})
	}
	reg("C01", 3000, false, "at least eight recorded events and two pages", mk(copt{transient: 20, notfound: 8, redirect: 6, maxLat: 30000, variants: true, robots: 15, matcher: 20, limiter: 15, impolite: 50, fatal: 12}))
	reg("C02", 3000, false, "at least eight recorded events and two pages", mk(copt{transient: 8, notfound: 4, maxLat: 8000, variants: true, matcher: 10, impolite: 70, dedup: []string{"", "map", "bf", "bf", "bftiny"}, redirect: 3}))
	reg("C03", 4000, false, "at least eight recorded events and two pages", mk(copt{transient: 10, notfound: 5, maxLat: 30000, robots: 15, delay: 15, matcher: 10, limiter: 30, impolite: 50, fatal: 45, cancel: 60, robotFault: 5, scrTemp: 3}))
	reg("C04", 3000, false, "at least eight recorded events and two pages", mk(copt{transient: 10, notfound: 10, maxLat: 30000, robots: 15, limiter: 25, impolite: 50, fatal: 92, robotFault: 4, maxPages: 18}))
	reg("C05", 3000, false, "at least eight recorded events and two pages", func(r *R, p *plan.Plan, thorough bool) {
		if r.P(40) {
			p.Crawl = wide(r)
			p.Sched.StallP = 0
			return
		}
		p.Crawl = crawl(r, copt{transient: 12, notfound: 15, maxLat: 20000, robots: 10, limiter: 40, impolite: 50, fatal: 20, cancel: 10, scrTemp: 3})
		p.Crawl.Conc = r.In(1, 4)
	})
	reg("C06", 3000, false, "at least eight recorded events and two pages", func(r *R, p *plan.Plan, thorough bool) {
		o := copt{transient: 5, notfound: 4, maxLat: 20000, variants: true, robots: 85, robotFault: 8, matcher: 5, redirect: 0}
		o.anyPattern = r.P(30)
		if r.P(20) {
			o.longLat = 50
			o.robotFault = 0
			c := crawl(r, o)
			for h := range c.Hosts {
				if len(c.Hosts[h].Robots) == 1 && c.Hosts[h].Robots[0].Kind == "ok" {
					a := c.Hosts[h].Robots[0]
					b := a
					b.Rules = rules(r, c, h)
					if r.P(35) {
						b.Kind = Pick(r, "refuse", "dns", "reset", "trunc", "none")
					}
					a.Until = int64(r.In(600, 5000))
					c.Hosts[h].Robots = []plan.Robots{a, b}
				}
			}
			if r.P(30) {
				c.Limiter = "rec"
				c.LimLat = r.In(500, 6000) * 1_000_000
			}
			p.Crawl = c
			return
		}
		p.Crawl = crawl(r, o)
	})
	reg("C07", 2500, true, "at least eight recorded events and two pages", mk(copt{transient: 4, notfound: 4, maxLat: 20000, robots: 30, delay: 75, matcher: 5, limiter: 15, cancel: 12, variants: true}))
	reg("C08", 3000, false, "at least eight recorded events and two pages", func(r *R, p *plan.Plan, thorough bool) {
		c := crawl(r, copt{transient: 10, notfound: 4, maxLat: 10000, variants: true, robots: 15, matcher: 75, limiter: 80, impolite: 50, fatal: 10, cancel: 5})
		if r.P(8) {
			c.BadStart = Pick(r, "ftp://h0.test/", "//h0.test/", "mailto:a@b.test", "/a", "h0.test/a", "file:///etc/passwd", "http://[::1", "", "javascript:1", ":", "HTTPX://h0.test/")
		}
		p.Crawl = c
	})
	c11 := mk(copt{transient: 25, notfound: 15, maxLat: 10000, robots: 20, robotFault: 4, impolite: 35, fatal: 35, cancel: 15, redirect: 8, scrTemp: 5})
	c11cache := cacheGen(cacheOpt{aggr: 25, conc: 30, fails: 30, trunc: 30, early: 20, val: 50, bypass: 10, cancel: 8, netfail: 15})
	reg("C11", 3000, false, "at least eight recorded events and two pages (three attempts, three cached requests, three page operations)", func(r *R, p *plan.Plan, thorough bool) {
		switch k := r.N(11); {
		case k == 10:
			p.World = "page"
			page(r, p, thorough)
		case k < 6:
			c11(r, p, thorough)
		case k < 8:
			p.World = "fetch"
			fetch(r, p, thorough)
		default:
			p.World = "cache"
			c11cache(r, p, thorough)
		}
	})
	reg("C16", 2500, false, "at least eight recorded events and two pages", func(r *R, p *plan.Plan, thorough bool) {
		c := crawl(r, copt{transient: 5, notfound: 3, maxLat: 10000, impolite: 80, scrTemp: 25})
		if r.P(40) {
			at := r.N(len(c.Pages))
			max := 4
			if c.MaxTry > 0 {
				max = c.MaxTry - 1
			}
			for k := r.In(1, max); k > 0; k-- {
				c.DedFail = append(c.DedFail, plan.Fail{At: at, Kind: "temp"})
				at++
				if r.P(50) {
					at += r.N(4)
				}
			}
		}
		switch {
		case r.P(8): // temporary forever
			c.Pages[r.N(len(c.Pages))].ScrFail = []string{"temp"}
		case r.P(8):
			c.Pages[r.N(len(c.Pages))].ScrFail = []string{"perm"}
		}
		p.Crawl = c
	})
}

// wide makes levels of independent pages that all take long.
func wide(r *R) *plan.Crawl {
	c := &plan.Crawl{Workers: Pick(r, 0, 1, 2, 5), Conc: Pick(r, 1, 2, 3, 5, 0), Client: "stub", Impolite: true, Wide: true, NoQueue: r.P(50)}
	huge := r.P(12)
	if huge {
		c.Conc = r.In(6, 48)
		c.Workers = Pick(r, 1, 5, 20, 50)
	}
	c.Hosts = []plan.Host{{Name: "h0.test"}}
	c.Pages = []plan.Page{{Path: "/", ScrMode: 2}}
	if r.P(40) {
		c.Limiter = "rec"
	}
	prev := 0
	for l := 1; l <= 2; l++ {
		k := r.In(2, 7)
		if huge {
			k = r.In(10, 45)
		}
		hub := len(c.Pages)
		if l == 2 {
			// failures that must give their slots back
			for j := r.N(6); j > 0; j-- {
				c.Pages[prev].Links = append(c.Pages[prev].Links, plan.Link{To: len(c.Pages)})
				p := plan.Page{Path: fmt.Sprintf("/m%d", j), ScrMode: r.N(6)}
				switch r.N(3) {
				case 0:
					p.Attempts = []plan.Attempt{{Kind: "status", Code: 404}}
				case 1:
					p.Attempts = []plan.Attempt{{Kind: "status", Code: 503}, {Kind: "status", Code: 404}}
				}
				c.Pages = append(c.Pages, p)
			}
			hub = len(c.Pages)
		}
		c.Pages = append(c.Pages, plan.Page{Path: fmt.Sprintf("/hub%d", l), ScrMode: 2, ScrLat: 30_000_000})
		c.Pages[prev].Links = append(c.Pages[prev].Links, plan.Link{To: hub})
		for j := 0; j < k; j++ {
			c.Pages[hub].Links = append(c.Pages[hub].Links, plan.Link{To: len(c.Pages)})
			c.Pages = append(c.Pages, plan.Page{Path: fmt.Sprintf("/w%d/%d", l, j), ScrMode: 2, ScrLat: 60_000_000, Level: l})
		}
		prev = hub + 1
	}
	c.Starts = []plan.Link{{To: 0}}
	return c
}
