package main

import (
	"context"
	"fmt"
	"math"
	"net/url"
	"runtime"
	"sync"
	"time"

	"github.com/yields/ant"
)

func init() { worlds["dedup"] = dedupWorld }

type dedCall struct {
	client     int
	start, end int
	in         []int
	out        []int
}

// dedupURL returns different URLs, groups of them differ in one part only.
func dedupURL(i int) *url.URL {
	g := i / 8
	h := fmt.Sprintf("h%d.test", g%3)
	var s string
	switch i % 8 {
	case 0:
		s = fmt.Sprintf("http://%s/p%d", h, g)
	case 1:
		s = fmt.Sprintf("http://%s/p%d?q=%d", h, g, i)
	case 2:
		s = fmt.Sprintf("https://%s/p%d", h, g)
	case 3:
		s = fmt.Sprintf("http://%s:8080/p%d", h, g)
	case 4:
		s = fmt.Sprintf("http://%s/P%d", h, g)
	case 5:
		s = fmt.Sprintf("http://%s/p%d/", h, g)
	case 6:
		s = fmt.Sprintf("http://%s/%%2Fp%d?q=%d", h, g, i-1)
	case 7:
		s = fmt.Sprintf("http://%s//p%d?q=%d", h, g, i-2)
	}
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

// dedupWorld lets several goroutines share one deduper.
func dedupWorld(e *Env) {
	p := e.P.Dedup
	var d ant.Deduper
	if p.Kind == "bf" {
		d = ant.DedupeBF(uint(p.M), uint(p.K))
	} else {
		d = ant.DedupeMap()
	}
	index := map[string]int{}
	for i := 0; i < p.URLs; i++ {
		index[dedupURL(i).String()] = i
	}
	var calls []*dedCall
	stamp := 0
	ncalls := 0
	call := func(client int, in []int) {
		c := &dedCall{client: client, in: in}
		batch := make(ant.URLs, 0, len(in))
		for _, i := range in {
			batch = append(batch, dedupURL(i))
		}
		stamp++
		c.start = stamp
		e.Logf("client %d dedupes %v", client, in)
		out, err := d.Dedupe(context.Background(), batch)
		stamp++
		c.end = stamp
		if err != nil {
			e.V("error", "Dedupe fails: %v", err)
			return
		}
		for k, u := range batch {
			if u == nil || u.String() != dedupURL(in[k]).String() {
				e.V("input", "Dedupe changes the slice it is given")
				break
			}
		}
		k := 0
		for _, u := range out {
			i, ok := index[u.String()]
			if !ok {
				e.V("foreign", "Dedupe returns %s, which is in no batch", u)
				continue
			}
			c.out = append(c.out, i)
			for k < len(in) && in[k] != i {
				k++
			}
			if k == len(in) {
				e.V("order", "Dedupe of %v returns %v: not in the given order", in, c.out)
				k = 0
			}
			k++
		}
		e.Logf("client %d gets %v", client, c.out)
		calls = append(calls, c)
		ncalls++
	}
	var wg sync.WaitGroup
	ok := e.within(time.Hour, func() {
		for ci, cl := range p.Clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, in := range cl {
					call(ci, in)
					runtime.Gosched()
				}
			}()
		}
		wg.Wait()
	})
	if !ok {
		e.V("hang", "concurrent Dedupe calls do not return\n%s", firstLines(e.stack, 60))
		return
	}
	e.nontriv = ncalls >= 4 && len(p.Clients) > 1

	returned := map[int][]*dedCall{}
	for _, c := range calls {
		for _, i := range c.out {
			returned[i] = append(returned[i], c)
		}
	}
	for i := 0; i < p.URLs; i++ {
		if cs := returned[i]; len(cs) > 1 {
			e.V("twice", "%s is returned %d times (clients %d and %d)", dedupURL(i), len(cs), cs[0].client, cs[1].client)
		}
	}
	never := map[int]bool{}
	seen := map[int]bool{}
	overlap := 0
	for _, c := range calls {
		outs := map[int]bool{}
		for _, i := range c.out {
			outs[i] = true
		}
		for _, i := range c.in {
			seen[i] = true
			if outs[i] {
				continue
			}
			cs := returned[i]
			if len(cs) == 0 {
				never[i] = true
				continue
			}
			if r := cs[0]; r.start > c.end && p.Kind != "bf" {
				e.V("withheld-early", "%s is withheld from client %d before any call that returns it has begun", dedupURL(i), c.client)
			} else if r != c && r.start < c.end && c.start < r.end {
				overlap++
			}
		}
	}
	if overlap > 0 {
		e.Probe("overlapping-calls-same-url")
	}
	if p.Kind != "bf" && len(never) > 0 {
		for i := range p.URLs {
			if never[i] {
				e.V("lost", "%s is withheld from every caller", dedupURL(i))
			}
		}
	}
	if p.Kind == "bf" {
		n := float64(len(seen))
		fp := n * math.Pow(1-math.Exp(-float64(p.K)*n/float64(p.M)), float64(p.K))
		allow := 0
		if fp > 0.001 {
			allow = 3 + int(8*fp)
		}
		if len(never) > allow {
			e.V("rate", "%d of %d URLs are withheld from every caller by a filter of %d bits and %d hashes (at most %d expected)", len(never), len(seen), p.M, p.K, allow)
		}
		if len(never) > 0 {
			e.Probe("false-positives")
		}
	}
	// everything that was returned is known from now on
	if p.Kind == "bf" || len(never) == 0 {
		var all []int
		for i := 0; i < p.URLs; i++ {
			if len(returned[i]) > 0 {
				all = append(all, i)
			}
		}
		n := len(calls)
		call(99, all)
		if len(calls) > n && len(calls[n].out) > 0 {
			e.V("twice", "URLs %v are returned again after all callers have finished", calls[n].out)
		}
	}
}
