package main

import (
	"context"
	"net/url"
	"strings"
	"sync"
	"time"
)

func init() { worlds["limit"] = limitWorld }

// limitWorld lets several goroutines share one built-in limiter.
func limitWorld(e *Env) {
	p := e.P.Limit
	spec := p.Kind + ":" + itoa(p.N)
	if p.Arg != "" {
		spec += ":" + p.Arg
	}
	lim, n, applies := parseLimiter(spec)
	if lim == nil {
		e.V("harness", "bad limiter %s", spec)
		return
	}
	var passed []time.Duration
	// upper bound of the time a call may wait: a token bucket in which every
	// matching call takes a token, also the cancelled ones
	tokens, last := float64(n), e.Now()
	bound := func(now time.Duration) time.Duration {
		tokens = min(float64(n), tokens+(now-last).Seconds()*float64(n))
		last = now
		tokens--
		if tokens >= 0 {
			return 0
		}
		return time.Duration(-tokens / float64(n) * float64(time.Second))
	}
	// calls that begin at one instant may overtake each other
	latest := map[time.Duration]time.Duration{}
	const slack = 50 * time.Microsecond
	matched, waited := 0, 0
	var wg sync.WaitGroup
	ok := e.within(24*time.Hour, func() {
		for _, cl := range p.Clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range cl.Ops {
					time.Sleep(us(o.SleepUs))
					u, err := url.Parse(o.URL)
					if err != nil {
						e.V("harness", "%v", err)
						return
					}
					ctx, cancel := context.WithCancel(context.Background())
					var at time.Duration = -1
					begin := e.Now()
					deadline := false
					switch {
					case o.CancelUs == -1:
						cancel()
						at = begin
						if mix(e.P.Seed, uint64(begin))%2 == 1 {
							ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
						}
					case o.CancelUs < 0:
						cancel()
						ctx, cancel = context.WithTimeout(context.Background(), us(int(-o.CancelUs)))
						at = begin + us(int(-o.CancelUs))
						deadline = true
					case o.CancelUs > 0:
						at = begin + us(int(o.CancelUs))
						time.AfterFunc(us(int(o.CancelUs)), cancel)
					}
					match := applies(u.Host, u.Path)
					var b time.Duration
					if match {
						matched++
						if at != begin {
							b = bound(begin)
							latest[begin] = max(latest[begin], b)
						}
					}
					e.Logf("limit %s match=%v", u, match)
					err = lim.Limit(ctx, u)
					end := e.Now()
					if d := latest[begin]; d > b {
						b = d
					}
					d := end - begin
					e.Logf("limit %s returns %v after %v", u, err, d)
					if err == nil && match {
						passed = append(passed, end)
						if d > 0 {
							waited++
						}
					}
					switch {
					case !match:
						if d > slack {
							e.V("unrelated", "limiter %s delays %s by %v", spec, u, d)
						}
						if err != nil && at < 0 {
							e.V("unrelated", "limiter %s refuses %s: %v", spec, u, err)
						}
					case err != nil && at < 0:
						e.V("error", "limiter %s refuses %s: %v", spec, u, err)
					case err != nil && !deadline && end < at:
						e.V("error", "limiter %s refuses %s before its context is cancelled: %v", spec, u, err)
					case err != nil && deadline && end < at && begin+b+slack < at:
						e.V("error", "limiter %s refuses %s although its turn comes before its deadline: %v", spec, u, err)
					case at >= 0 && at == begin && !deadline && err == nil:
						e.V("cancelled", "limiter %s lets %s pass although its context is cancelled", spec, u)
					}
					if at >= 0 && end > at+slack {
						e.V("cancel-slow", "limiter %s holds %s %v after its context ended", spec, u, end-at)
					}
					if at >= 0 && err != nil {
						e.Fault("cancelled-wait")
					}
					if match && d > b+slack && err == nil {
						e.V("slow", "limiter %s holds %s for %v, its turn comes after %v at the latest", spec, u, d, b)
					}
					cancel()
				}
			}()
		}
		wg.Wait()
	})
	if !ok {
		e.V("hang", "limiter %s: calls do not return\n%s", spec, firstLines(e.stack, 60))
		return
	}
	if msg := rateViolation(passed, n); msg != "" {
		e.V("rate", "limiter %s: %s", spec, msg)
	}
	if matched > n {
		e.Probe("more-than-burst")
	}
	if waited > 0 {
		e.Probe("calls-waited")
	}
	if strings.Contains(spec, "http") {
		e.Probe("scheme-in-pattern")
	}
	e.nontriv = matched >= 3
}
