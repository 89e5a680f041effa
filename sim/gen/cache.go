package gen

import (
	"strconv"
	"strings"

	"verifsim/plan"
)

type cacheOpt struct {
	aggr    int // percent of aggressive plans
	conc    int
	fails   int // storage faults
	trunc   int
	early   int // percent of requests that do not read the whole body
	val     int // emphasis on validation
	bypass  int
	cancel  int
	netfail int
}

func ccResp(r *R) []string {
	lines := []string{Pick(r, "max-age=60", "max-age=60", "max-age=60", "max-age=5", "max-age=3600", "max-age=0", "Max-Age=60", "max-age=1", "max-age=-5", "max-age=31536000000", "max-age=99999999999999999999", "max-age=2147483648", "max-age=")}
	switch r.N(10) {
	case 0:
		lines = []string{Pick(r, "no-store", "No-Store", "no-cache", "public", "private", "no-store, max-age=60", "max-age=60, no-store", "max-age=60,no-cache", " max-age=60 , public")}
	case 1:
		lines = append(lines, Pick(r, "no-store", "no-cache", "public", "must-revalidate", "private"))
	case 2:
		lines = append([]string{Pick(r, "public", "private", "must-revalidate", "no-transform")}, lines...)
	case 3:
		lines[0] += ", " + Pick(r, "must-revalidate", "public", "no-cache", "stale-while-revalidate=5")
	case 4:
		lines = nil
	}
	return lines
}

// reqDirectives composes directives of a request, in one line or several.
func reqDirectives(r *R) []string {
	sec := func() string {
		return strconv.Itoa(Pick(r, 0, 0, 1, 5, 10, 30, 59, 60, 61, 100, 3600, r.N(70)))
	}
	var ret []string
	for k := r.In(2, 3); k > 0; k-- {
		d := ""
		switch r.N(8) {
		case 0, 1:
			d = "max-age=" + sec()
		case 2, 3:
			d = "max-stale=" + sec()
		case 4:
			d = "max-stale"
		case 5, 6:
			d = "min-fresh=" + sec()
		default:
			d = Pick(r, "stale-if-error", "no-transform", "foo", "foo=bar")
		}
		name, _, _ := strings.Cut(d, "=")
		for _, o := range ret {
			if strings.Contains(o, name) {
				d = "" // a directive is given once
			}
		}
		if d == "" {
			continue
		}
		if len(ret) > 0 && r.P(75) {
			ret[len(ret)-1] += Pick(r, ", ", ",", " , ") + d
		} else {
			ret = append(ret, d)
		}
	}
	return ret
}

func cacheGen(o cacheOpt) func(r *R, p *plan.Plan, thorough bool) {
	return func(r *R, p *plan.Plan, thorough bool) {
		c := &plan.Cache{Policy: "rfc", Storage: Pick(r, "mem", "rec", "rec", "disk"), Client: Pick(r, "stub", "stub", "http")}
		if r.P(o.aggr) {
			c.Policy = "aggressive"
			c.AgeS = Pick(r, 0, 0, 1, 60, 600, 86400)
		}
		if r.P(30) {
			c.StLat = r.LogUs(5000)
		}
		nu := r.In(1, 4)
		at := r.Perm(12)
		if r.P(40) {
			at = []int{0, 1 + r.N(4), 5, 6} // near misses
		}
		if r.P(8) {
			at = []int{0, 0, 0, 0} // hashes that collide
			for i, j := range r.Perm(3) {
				at[i] = 12 + j
			}
			nu = r.In(2, 4)
		}
		for u := 0; u < nu; u++ {
			cu := plan.CURL{At: at[u]}
			for g := r.In(1, 3); g > 0; g-- {
				x := plan.CGen{CC: ccResp(r), Size: Pick(r, 0, 10, 100, 3000, 9000, 10, 100, 3000, 9000, 40000), ETag: r.P(65), LastMod: r.P(40), Frame: r.N(6), Lat: r.LogUs(20000)}
				if r.P(2) {
					x.Size = Pick(r, 70000, 140000, 300000)
					if x.Slow > 100 {
						x.Slow = 100
					}
				}
				if r.P(25) {
					x.Expires = Pick(r, 60, 5, -5, 3600, 1)
					if r.P(20) {
						x.ExpRaw = Pick(r, "0", "-1", "never")
						if r.P(70) {
							x.CC = nil
						}
					}
				}
				if r.P(6) {
					x.DateFmt = r.In(1, 2)
				}
				if r.P(8) {
					x.NoDate = true
				}
				if r.P(20) {
					x.DateOff = Pick(r, -1, -10, -50, -59, -61, -7200, 1, 5, 30, 3600)
				}
				x.Redir = r.P(10)
				if r.P(12) {
					x.Age = Pick(r, "0", "1", "4", "30", "59", "60", "100", "3599", "x", "-5")
				}
				if r.P(15) {
					x.Vary = Pick(r, "X-Lang", "x-lang", "Accept-Encoding, X-Lang", "X-Dev,X-Lang", "Accept-Encoding|X-Lang", "X-Dev|X-Lang", "*", "X-Lang, *")
				}
				if r.P(15) {
					x.Slow = r.LogUs(3000)
				}
				if r.P(18) {
					x.Status = Pick(r, 203, 204, 300, 404, 410, 501, 500, 302, 403, 414, 405, 201)
				}
				if r.P(o.val) {
					x.ETag = x.ETag || r.P(60)
					for k := r.In(1, 3); k > 0; k-- {
						x.Cond = append(x.Cond, Pick(r, "", "", "min", "200", "nostore", "500", "503", "404", "reset"))
					}
					if r.P(50) {
						x.Cond = append(x.Cond, "")
					}
				}
				if r.P(o.trunc) {
					x.Att = append(x.Att, plan.Attempt{Kind: "trunc", Cut: r.N(990)})
					x.Size = Pick(r, 100, 3000, 9000)
					if r.P(70) {
						x.Att = append(x.Att, plan.Attempt{Kind: "ok"})
					}
				}
				if r.P(o.netfail) {
					k := Pick(r, "reset", "refuse", "temp")
					if c.Client == "stub" && r.P(30) {
						k = "errresp"
					}
					a := []plan.Attempt{{Kind: k}}
					if r.P(50) {
						a = []plan.Attempt{{Kind: "ok"}, {Kind: k}}
					}
					if r.P(30) {
						a = append(a, plan.Attempt{Kind: "status", Code: Pick(r, 500, 503, 404)})
					}
					x.Att = append(a, plan.Attempt{Kind: "ok"})
				}
				cu.Gens = append(cu.Gens, x)
			}
			c.URLs = append(c.URLs, cu)
		}
		nc := 1
		if r.P(o.conc) {
			nc = r.In(2, 4)
		}
		for k := 0; k < nc; k++ {
			var reqs []plan.CReq
			for n := r.In(3, 14); n > 0; n-- {
				q := plan.CReq{URL: r.N(nu), Read: 1000, Chunk: Pick(r, 0, 0, 1, 100)}
				if r.P(40) {
					q.URL = 0
				}
				if q.Chunk == 1 && r.P(70) {
					q.Chunk = 37
				}
				if nc > 1 && r.P(60) {
					q.AtMs = int64(r.N(30))
				} else {
					q.AtMs = Pick(r, int64(0), 0, 0, 500, 1000, 4000, 5000, 6000, 30000, 59000, 60000, 61000, 3_600_000, int64(r.N(100000)))
					if c.Policy == "aggressive" && r.P(25) {
						a := int64(c.AgeS)
						if a == 0 {
							a = 86400
						}
						q.AtMs = a*1000 + int64(r.In(-3, 3))*500
					}
				}
				if q.AtMs < 0 {
					q.AtMs = 0
				}
				q.Bump = r.P(12)
				if r.P(12) {
					q.Method = "HEAD"
				}
				if r.P(30) {
					q.CC = []string{Pick(r, "no-cache", "max-age=0", "max-age=10", "max-age=100000", "min-fresh=10", "min-fresh=58", "max-stale", "max-stale=30", "max-stale=1", "stale-if-error", "max-age=0, stale-if-error", "no-cache, stale-if-error", "only-if-cached", "max-age=30, max-stale=10", "min-fresh=5, max-age=40", "No-Cache", "max-stale=31536000000", "max-age=31536000000", "max-age=x", "min-fresh=x", "max-stale=0")}
					if r.P(35) {
						q.CC = reqDirectives(r)
					}
					if r.P(10) {
						q.CC = append([]string{"no-transform"}, q.CC...)
					}
				}
				if r.P(o.bypass) {
					switch r.N(4) {
					case 0:
						q.Method = Pick(r, "POST", "PUT", "DELETE", "OPTIONS", "PATCH")
					case 1:
						q.CC = Pick(r, []string{"no-store"}, []string{"max-age=10, no-store"}, []string{"max-age=10", "no-store"}, []string{"No-Store"}, []string{"no-cache", "no-store"})
					case 2:
						q.Hdr = append(q.Hdr, Pick(r, "Range: bytes=0-3", "Authorization: token x", "Content-Range: bytes 0-3/10", "Range: bytes=0-", "Range: bytes=-5", "Range: bytes=0-1,3-4", "Authorization: Basic dTpw", "Authorization: Bearer t", "Content-Range: bytes */10"))
					case 3:
						q.Method = "HEAD"
					}
				}
				if r.P(5) {
					q.Hdr = append(q.Hdr, "Pragma: no-cache")
				}
				if r.P(12) {
					q.Hdr = append(q.Hdr, "X-Lang: "+Pick(r, "en", "de"))
				}
				if r.P(6) {
					q.Hdr = append(q.Hdr, "X-Dev: "+Pick(r, "m", "d"))
				}
				if r.P(6) {
					q.Own = r.In(1, 3)
				}
				if r.P(o.early) {
					switch r.N(5) {
					case 0:
						q.Read = 0
					case 1:
						q.NoClose = true
					default:
						q.Read = r.N(1000)
					}
				}
				if nc == 1 && c.Storage == "disk" && r.P(18) {
					q.Restart = r.In(1, 2)
				}
				q.Twice = r.P(8)
				q.Mutate = r.P(8)
				if r.P(10) {
					q.HoldMs = int64(r.N(3000))
				}
				if r.P(o.cancel) {
					q.CancelUs = int64(1 + r.LogUs(60000))
				}
				reqs = append(reqs, q)
			}
			c.Clients = append(c.Clients, reqs)
		}
		if r.P(o.fails) {
			if c.Storage == "mem" {
				c.Storage = "rec"
			}
			for k := r.In(1, 3); k > 0; k-- {
				c.Fails = append(c.Fails, plan.Fail{At: r.N(8), Kind: Pick(r, "load", "store", "corrupt")})
			}
		}
		if r.P(10) {
			for k := r.In(1, 2); k > 0; k-- {
				c.Jumps = append(c.Jumps, plan.Jump{AtMs: int64(r.N(120000)), ByS: Pick(r, int64(-30), 30, 3600, -3600, 86400*2)})
			}
		}
		if c.Storage == "disk" {
			c.Torn = r.U()
			c.Compress = r.P(40)
			if r.P(20) {
				c.ShortIO = r.In(500, 5000)
			}
			if r.P(20) {
				c.EINTR = Pick(r, 5, 20)
			}
		}
		p.Cache = c
	}
}

func init() {
	real := []string{"antcache.Cache with its policies, cachereader, in-memory storage and disk store (instrumented)", "net/http response parsing and dumping", "net/http client and transport (a third of the runs)"}
	stub := []string{"origin server and network", "clock", "in part of the runs a recording storage with injected failures", "file system below the disk store (the runs that use it)"}
	reg := func(prop string, quick int, o cacheOpt) {
		register(&Gen{Prop: prop, World: "cache", Quick: quick, Make: cacheGen(o), Rule: "at least three requests of which one reaches the origin", Real: real, Stub: stub, Assume: smallAssume})
	}
	reg("C20", 4000, cacheOpt{aggr: 35, conc: 40, fails: 10, trunc: 40, early: 25, val: 25, bypass: 5, cancel: 6, netfail: 5})
	reg("C21", 4000, cacheOpt{aggr: 0, conc: 15, fails: 5, trunc: 3, early: 4, val: 20, bypass: 3, netfail: 3})
	reg("C22", 4000, cacheOpt{aggr: 30, conc: 15, fails: 3, trunc: 3, early: 4, val: 15, bypass: 35, netfail: 3})
	reg("C23", 4000, cacheOpt{aggr: 5, conc: 20, fails: 5, trunc: 5, early: 8, val: 90, bypass: 3, netfail: 10})
	reg("C24", 4000, cacheOpt{aggr: 30, conc: 15, fails: 70, trunc: 10, early: 8, val: 40, bypass: 8, cancel: 5, netfail: 40})
	reg("C26", 4000, cacheOpt{aggr: 100, conc: 20, fails: 5, trunc: 5, early: 5, val: 30, bypass: 12, netfail: 4})
}
