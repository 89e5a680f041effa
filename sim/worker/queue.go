package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/yields/ant"

	"verifsim/plan"
)

func init() { worlds["queue"] = queueWorld }

type qop struct {
	client     int
	op         string
	ids        []int // enqueued
	got        int   // dequeued, -1 none
	res        string
	start, end int // end 0: pending
}

func (o *qop) String() string {
	s := fmt.Sprintf("client %d %s", o.client, o.op)
	if len(o.ids) > 0 {
		s += fmt.Sprint(o.ids)
	}
	if o.end == 0 {
		return s + " (blocked)"
	}
	if o.got >= 0 {
		s += fmt.Sprintf(" -> %d", o.got)
	} else if o.res != "" {
		s += " -> " + o.res
	}
	return s + fmt.Sprintf(" [%d,%d]", o.start, o.end)
}

// qstate is the sequential reference: a FIFO list, a closed flag and the
// number of accepted and not yet acknowledged URLs.
type qstate struct {
	pending []int
	closed  bool
	out     int
}

func (s *qstate) key() string {
	var b strings.Builder
	for _, x := range s.pending {
		b.WriteByte(byte(x))
	}
	b.WriteByte(255)
	b.WriteByte(byte(s.out))
	if s.closed {
		b.WriteByte(1)
	}
	return b.String()
}

// apply returns the state after o, or false if o cannot take effect.
func (s qstate) apply(o *qop) (qstate, bool) {
	switch o.op {
	case "enq", "cenq":
		if o.op == "cenq" && o.res == "ctx" {
			return s, true
		}
		switch {
		case len(o.ids) == 0:
			return s, o.res == "" || s.closed && o.res == "eof"
		case s.closed:
			return s, o.res == "eof"
		case o.res != "" || o.op == "cenq":
			return s, false
		}
		s.pending = append(append([]int{}, s.pending...), o.ids...)
		s.out += len(o.ids)
		return s, true
	case "deq", "cdeq":
		if o.op == "cdeq" && o.res == "ctx" {
			return s, true
		}
		if o.res == "eof" {
			return s, s.closed
		}
		if len(s.pending) == 0 || s.pending[0] != o.got {
			return s, false
		}
		s.pending = s.pending[1:]
		return s, true
	case "done":
		s.out--
		return s, s.out >= 0
	case "wait":
		return s, s.out == 0
	case "close":
		s.out -= len(s.pending)
		s.pending = nil
		s.closed = true
		return s, true
	}
	return s, false
}

// blocked reports whether a pending operation is right to be blocked in s.
func (s qstate) blocked(o *qop) bool {
	switch o.op {
	case "deq", "cdeq":
		return !s.closed && len(s.pending) == 0
	case "wait":
		return s.out > 0
	}
	return false
}

// linearize looks for an order of the completed operations that respects real
// time and the reference, and after which every pending operation is rightly
// blocked.  It returns 1 when there is one, 0 when there is none, and -1 when
// orders exist but leave an operation blocked.
func linearize(ops []*qop) int {
	var done, pend []*qop
	for _, o := range ops {
		if o.end > 0 {
			done = append(done, o)
		} else {
			pend = append(pend, o)
		}
	}
	if len(done) > 62 {
		return 1
	}
	seen := map[string]bool{}
	order := 0
	var rec func(mask uint64, s qstate) bool
	rec = func(mask uint64, s qstate) bool {
		if mask == 1<<len(done)-1 {
			order++
			for _, o := range pend {
				if !s.blocked(o) {
					return false
				}
			}
			return true
		}
		k := fmt.Sprintf("%x/", mask) + s.key()
		if seen[k] || len(seen) > 400000 {
			return len(seen) > 400000
		}
		seen[k] = true
		first := 1 << 60
		for i, o := range done {
			if mask&(1<<i) == 0 && o.end < first {
				first = o.end
			}
		}
		for i, o := range done {
			if mask&(1<<i) == 0 && o.start < first {
				if t, ok := s.apply(o); ok && rec(mask|1<<i, t) {
					return true
				}
			}
		}
		return false
	}
	if rec(0, qstate{}) {
		return 1
	}
	if order > 0 {
		return -1
	}
	return 0
}

func history(ops []*qop) string {
	var b strings.Builder
	for _, o := range ops {
		b.WriteString("\n  " + o.String())
	}
	return b.String()
}

// flood queues many URLs before the first is dequeued.
func flood(e *Env, p *plan.Queue) {
	q := ant.MemoryQueue(p.MaxBatch)
	ctx := context.Background()
	const producers = 2
	ok := e.within(time.Hour, func() {
		var wg sync.WaitGroup
		for c := 0; c < producers; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < p.Flood; {
					var batch ant.URLs
					for k := 1 + int(mix(e.P.Seed, uint64(c), uint64(i))%uint64(p.Flood/2+1)); k > 0 && i < p.Flood; k-- {
						batch = append(batch, &url.URL{Scheme: "http", Host: fmt.Sprintf("q%d.test", c), Path: fmt.Sprintf("/%d", i)})
						i++
					}
					if err := q.Enqueue(ctx, batch); err != nil {
						e.V("error", "Enqueue fails: %v", err)
					}
				}
			}()
		}
		wg.Wait()
	})
	if !ok {
		e.V("blocked", "%d URLs cannot be enqueued before some are dequeued\n%s", producers*p.Flood, firstLines(e.stack, 60))
		return
	}
	e.Probe("flood")
	e.nontriv = true
	ok = e.within(time.Hour, func() {
		var next [producers]int
		for n := producers * p.Flood; n > 0; n-- {
			u, err := q.Dequeue(ctx)
			if err != nil {
				e.V("error", "Dequeue fails: %v", err)
				return
			}
			var c, i int
			fmt.Sscanf(u.String(), "http://q%d.test/%d", &c, &i)
			if c < 0 || c >= producers || i != next[c] {
				e.V("linear", "Dequeue returns %v instead of URL %v of its producer", u, next)
				return
			}
			next[c]++
			if err := q.Done(ctx, u); err != nil {
				e.V("error", "Done fails: %v", err)
			}
		}
		q.Wait()
	})
	if !ok {
		e.V("hang", "%d queued URLs cannot be dequeued\n%s", producers*p.Flood, firstLines(e.stack, 60))
	}
}

func queueWorld(e *Env) {
	p := e.P.Queue
	if p.Flood > 0 {
		flood(e, p)
		return
	}
	q := ant.MemoryQueue(p.MaxBatch)
	var ops []*qop
	stamp, next := 0, 0
	unacked := map[int][]int{}
	poison := &url.URL{Scheme: "http", Host: "poison.test"}
	idURL := func(i int) *url.URL { return &url.URL{Scheme: "http", Host: "q.test", Path: fmt.Sprintf("/%d", i)} }
	urlID := func(u *url.URL) int {
		if u == nil {
			return -2
		}
		i := -2
		fmt.Sscanf(u.Path, "/%d", &i)
		return i
	}
	result := func(ctx context.Context, o *qop, err error) {
		switch {
		case err == nil:
		case errors.Is(err, io.EOF):
			o.res = "eof"
		case isCtx(err):
			o.res = "ctx"
			if ctx.Err() == nil {
				e.V("error", "%s reports %v although its context is alive", o, err)
			}
		default:
			o.res = "error"
			e.V("error", "%s fails: %v", o, err)
		}
	}
	do := func(client int, op string, n int) {
		o := &qop{client: client, op: op, got: -1}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		switch op {
		case "sleep":
			time.Sleep(us(n))
			return
		case "done":
			if len(unacked[client]) == 0 {
				return
			}
		case "enq", "cenq":
			for i := 0; i < n; i++ {
				o.ids = append(o.ids, next)
				next++
			}
		}
		late := mix(e.P.Seed, uint64(stamp))%2 == 1
		if op == "cenq" || op == "cdeq" && n == 0 {
			cancel()
			if late {
				ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
				defer cancel()
			}
		} else if op == "cdeq" && late {
			cancel()
			ctx, cancel = context.WithTimeout(context.Background(), us(n))
			defer cancel()
		} else if op == "cdeq" {
			t := time.AfterFunc(us(n), cancel)
			defer t.Stop()
		}
		stamp++
		o.start = stamp
		ops = append(ops, o)
		e.Logf("client %d calls %s %v", client, op, o.ids)
		switch op {
		case "enq", "cenq":
			batch := make(ant.URLs, 0, n+2)
			for _, i := range o.ids {
				batch = append(batch, idURL(i))
			}
			err := q.Enqueue(ctx, batch)
			result(ctx, o, err)
			// the caller may reuse its slice
			for i := range batch {
				batch[i] = poison
			}
			_ = append(batch, poison, poison)
		case "deq", "cdeq":
			u, err := q.Dequeue(ctx)
			result(ctx, o, err)
			if err == nil {
				if o.got = urlID(u); o.got < 0 {
					e.V("foreign", "Dequeue returns %v, which was never enqueued", u)
				} else {
					unacked[client] = append(unacked[client], o.got)
				}
			}
		case "done":
			id := unacked[client][0]
			unacked[client] = unacked[client][1:]
			if err := q.Done(ctx, idURL(id)); err != nil {
				e.V("error", "Done fails: %v", err)
			}
		case "wait":
			q.Wait()
		case "close":
			if err := q.Close(ctx); err != nil {
				e.V("error", "Close fails: %v", err)
			}
		}
		stamp++
		o.end = stamp
		e.Logf("%s", o)
	}
	var wg sync.WaitGroup
	for ci, cl := range p.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range cl {
				do(ci, o.Op, o.N)
			}
		}()
	}
	time.Sleep(30 * time.Second)
	e.nontriv = len(ops) >= 5
	blocked := 0
	for _, o := range ops {
		if o.end == 0 {
			blocked++
			if o.op == "deq" || o.op == "cdeq" {
				e.Probe("dequeue-blocked")
			} else {
				e.Probe("wait-blocked")
			}
		}
	}
	switch linearize(ops) {
	case 0:
		e.V("linear", "no FIFO order explains the operations:%s", history(ops))
		return
	case -1:
		e.V("blocked", "an operation stays blocked although it could finish:%s", history(ops))
		return
	}
	// close, acknowledge everything: all calls must return
	ok := e.within(time.Hour, func() {
		do(100, "close", 0)
		for i := 0; i < 4; i++ {
			do(100, "cdeq", 0)
		}
		do(100, "enq", 1)
		for {
			// clients that were blocked go on with their remaining operations
			time.Sleep(time.Second)
			acked := false
			for c := 0; c < len(p.Clients); c++ {
				for len(unacked[c]) > 0 {
					do(c, "done", 0)
					acked = true
				}
			}
			if !acked {
				break
			}
		}
		do(100, "wait", 0)
		wg.Wait()
	})
	if !ok {
		e.V("hang", "operations do not return after the queue was closed and everything acknowledged:%s", history(ops))
		return
	}
	if linearize(ops) != 1 {
		e.V("linear", "no FIFO order explains the operations:%s", history(ops))
	}
}
