package gen

import "verifsim/plan"

type cdpOpt struct {
	jobs    int
	conc    int // percent of jobs that do not follow another one
	cancel  int
	fault   int // percent of runs with faults
	hang    bool
	navErr  int
	late    int
	frag    int
	sameURL int
}

var cdpSteps = []string{"Page.enable", "Network.enable", "Network.setExtraHTTPHeaders", "Storage.setCookies", "Page.navigate", "DOM.getDocument", "DOM.getOuterHTML", "Storage.getCookies", "Network.getCookies", "Page.setLifecycleEventsEnabled", "handshake", "handshake", "new", "version", "close", "dial"}

func cdpPage(r *R, o cdpOpt) plan.CPage {
	p := plan.CPage{Status: Pick(r, 200, 200, 200, 404, 500, 201, 301), Size: Pick(r, 0, 10, 100, 3000), Lat: r.LogUs(400000), Early: r.P(40), NoFrame: r.P(15), Old: r.P(10), Cookies: r.N(3)}
	if r.P(10) {
		p.Size = r.In(4000, 70000)
	}
	if r.P(60) {
		p.ReadyLat = r.LogUs(300000)
	}
	if r.P(20) {
		p.Redirect = r.In(1, 3)
		if r.P(40) {
			p.Moved = r.In(1, 3)
		}
	}
	if r.P(60) {
		for i := r.In(1, 5); i > 0; i-- {
			p.Subs = append(p.Subs, plan.CSub{Before: r.P(40), Lat: r.LogUs(200000), Never: r.P(20), Doc: r.P(35)})
		}
	}
	if r.P(15) {
		p.Multi = r.In(1, 3)
	}
	p.NoHdr = p.Multi == 0 && r.P(5)
	if r.P(o.navErr) {
		p.NavErr = Pick(r, "net::ERR_NAME_NOT_RESOLVED", "net::ERR_CONNECTION_REFUSED", "net::ERR_ABORTED")
	}
	if r.P(o.late) {
		p.LateUs = int64(300000 + r.LogUs(2000000))
	}
	return p
}

func cdpGen(o cdpOpt) func(r *R, p *plan.Plan, thorough bool) {
	return func(r *R, p *plan.Plan, thorough bool) {
		c := &plan.CDP{Hosts: r.In(1, 3), Addr: Pick(r, 0, 0, 1, 2)}
		if r.P(60) {
			c.LatUs = r.LogUs(20000)
		}
		if r.P(15) {
			c.Chunk = r.In(1, 200)
		}
		if r.P(15) {
			c.Frag = r.In(20, 300)
		}
		c.Ping = r.P(10)
		n := r.In(1, o.jobs)
		conc := o.conc
		crowd := r.P(6) // more requests at once than tabs are kept
		if crowd {
			n = r.In(11, 18)
			conc = 100
		}
		if !crowd && r.P(20) {
			conc = Pick(r, 0, 100)
		}
		faulty := r.P(o.fault)
		for i := 0; i < n; i++ {
			j := plan.CJob{StartUs: r.LogUs(Pick(r, 100, 20000, 1000000)), Host: r.N(3), Hdr: r.N(4), Cookies: r.N(3), Page: cdpPage(r, o)}
			if i > 0 && !r.P(conc) {
				j.After = i
				if r.P(30) {
					j.After = r.In(1, i)
				}
			}
			if crowd {
				j.StartUs = r.LogUs(300)
				j.Page.Lat = max(j.Page.Lat, 100000)
			}
			if j.Hdr > 0 && r.P(15) {
				j.Values = r.In(1, 2)
			}
			j.Lower = r.P(10)
			if i > 0 && r.P(o.sameURL) {
				j.Same = r.In(1, i)
			}
			if r.P(o.frag) {
				j.Frag = Pick(r, "a", "b")
			}
			if r.P(o.cancel) {
				j.CancelUs = int64(r.LogUs(Pick(r, 3000, 100000, 1000000)) + 1)
				j.Deadline = r.P(50)
			}
			c.Jobs = append(c.Jobs, j)
		}
		if faulty {
			hang := o.hang && r.P(60)
			for i := Pick(r, 1, 1, 2, 3, 6); i > 0; i-- {
				f := plan.CFault{Step: cdpSteps[r.N(len(cdpSteps))], Nth: r.N(n + 1), Kind: Pick(r, "error", "error", "drop", "drop", "partial", "gone", "garbage")}
				if hang && r.P(50) {
					f.Kind = Pick(r, "hang", "crash")
				}
				c.Faults = append(c.Faults, f)
			}
			if r.P(25) {
				for i := r.In(1, 3); i > 0; i-- {
					k := "gone"
					if hang && r.P(50) {
						k = "crash"
					}
					c.Tabs = append(c.Tabs, plan.CTab{AtUs: int64(r.LogUs(2000000)), Tab: r.N(4), Kind: k})
				}
			}
			if r.P(15) {
				c.RestartUs = int64(r.LogUs(2000000) + 1)
				c.DownUs = int64(r.LogUs(1000000))
			}
			// Nothing ends a stalled browser but the context.
			for i := range c.Jobs {
				if j := &c.Jobs[i]; j.CancelUs == 0 && (hang || c.RestartUs > 0) {
					j.CancelUs = int64(r.In(1, 20)) * 1000000
					j.Deadline = r.P(70)
				}
			}
		}
		if o.hang && r.P(5) { // a browser that fails while it shows the document already
			for i := range c.Jobs {
				if j := &c.Jobs[i]; i > 0 {
					j.Same, j.After, j.Frag = 1, i, Pick(r, "a", "b")
				}
			}
			for i := Pick(r, 1, 1, 2); i > 0; i-- {
				c.Faults = append(c.Faults, plan.CFault{Step: "Page.navigate", Nth: r.N(6), Kind: Pick(r, "error", "error", "drop", "partial", "garbage")})
			}
		}
		p.CDP = c
	}
}

func init() {
	real := []string{"antcdp (all of it, instrumented)", "github.com/mafredri/cdp (rpcc instrumented), github.com/gorilla/websocket, net/http client", "Go runtime scheduler, channels, timers, contexts (seeded)"}
	stub := []string{"Chrome: a scripted browser speaking the HTTP endpoints, WebSocket framing and the DevTools methods and events the client uses", "TCP: simulated connections with latency and faults"}
	assume := []string{"the scripted browser orders and times its events like Chrome (document response before or after the reply to navigate, subresource and frame events anywhere, life cycle events replayed when enabled)"}
	reg := func(prop string, nostall bool, o cdpOpt, rule string) {
		register(&Gen{Prop: prop, World: "cdp", Quick: 3000, NoStall: nostall, Make: cdpGen(o), Rule: rule, Real: real, Stub: stub, Assume: assume})
	}
	reg("C40", false, cdpOpt{jobs: 8, conc: 50, cancel: 15, fault: 15, navErr: 8, late: 25, frag: 5, sameURL: 15},
		"1-8 requests, sequential and concurrent, to up to 3 hosts; pages with redirects, subresources, frames, self-navigation, cookies and every event order; cancellations; some protocol faults")
	reg("C41", false, cdpOpt{jobs: 25, conc: 60, cancel: 6, fault: 10, navErr: 8, late: 5, sameURL: 10},
		"1-25 requests, sequential and concurrent (beyond what the client keeps for reuse), refused navigations, cancellations and protocol faults; then as many concurrent requests as tabs are open")
	reg("C42", true, cdpOpt{jobs: 6, conc: 50, cancel: 30, fault: 65, hang: true, navErr: 8, late: 5, frag: 8, sameURL: 20},
		"1-6 requests with faults at every protocol step (errors, disconnects, partial and malformed messages, stalls, crashed and closed tabs, browser restarts), cancellations at any instant; then a healthy browser")
	reg("C43", true, cdpOpt{jobs: 6, conc: 40, cancel: 30, fault: 75, hang: true, navErr: 10, late: 5, sameURL: 10},
		"1-6 requests with faults at every protocol step, cancellations and restarts; then a healthy browser and as many requests as there were tabs, of which the last must succeed")
}
