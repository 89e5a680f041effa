package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"verifsim/plan"
)

// minimise shrinks the plan and then the schedule while the same class of
// violation persists.
func minimise(bin string, in input, class string, fs []finding) (input, string) {
	deadline := time.Now().Add(75 * time.Second)
	runs := 0
	var mu sync.Mutex
	fails := func(c input) (output, bool) {
		mu.Lock()
		runs++
		mu.Unlock()
		o := execute(bin, c)
		if o.harness != "" {
			return o, false
		}
		_, fresh := known(fs, o.Viols)
		for _, v := range fresh {
			if v.Class == class {
				return o, true
			}
		}
		return o, false
	}
	// firstFailing tries candidates in parallel and returns the first that fails.
	firstFailing := func(cs []input) (input, bool) {
		for len(cs) > 0 && time.Now().Before(deadline) {
			n := *jobs
			if n > len(cs) {
				n = len(cs)
			}
			ok := make([]bool, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					_, ok[i] = fails(cs[i])
				}(i)
			}
			wg.Wait()
			for i := 0; i < n; i++ {
				if ok[i] {
					return cs[i], true
				}
			}
			cs = cs[n:]
		}
		return input{}, false
	}
	cur := in

	// 1. simpler scheduling
	var cs []input
	simple := cur
	simple.Plan.Sched = plan.Sched{Seed: cur.Plan.Sched.Seed, Fifo: true, StepCap: cur.Plan.Sched.StepCap}
	cs = append(cs, simple)
	nostall := cur
	nostall.Plan.Sched.StallP = 0
	cs = append(cs, nostall)
	if c, ok := firstFailing(cs); ok {
		cur = c
	}

	// 2. shrink the plan, retrying each candidate under a few schedules
	body := func(p plan.Plan) any {
		b, _ := json.Marshal(p)
		var v any
		json.Unmarshal(b, &v)
		return v
	}
	improved := true
	for improved && time.Now().Before(deadline) {
		improved = false
		tree := body(cur.Plan)
		muts := mutations(tree, nil)
		for k := 0; k < len(muts) && time.Now().Before(deadline); {
			var batch []input
			var idx []int
			for j := k; j < len(muts) && len(batch) < 4**jobs; j++ {
				t := body(cur.Plan)
				if !muts[j](&t) {
					continue
				}
				b, _ := json.Marshal(t)
				var p plan.Plan
				if json.Unmarshal(b, &p) != nil {
					continue
				}
				p.Prop, p.World = cur.Plan.Prop, cur.Plan.World
				for s := uint64(0); s < 3; s++ {
					c := input{Plan: p}
					if s > 0 {
						if c.Plan.Sched.Fifo {
							continue
						}
						c.Plan.Sched.Seed += s * 7919
					}
					batch = append(batch, c)
					idx = append(idx, j)
				}
			}
			if len(batch) == 0 {
				break
			}
			last := idx[len(idx)-1]
			if c, ok := firstFailing(batch); ok {
				cur = c
				improved = true
				for i := range batch {
					if same(batch[i], c) {
						k = idx[i]
						break
					}
				}
				muts = mutations(body(cur.Plan), nil)
				if k >= len(muts) {
					break
				}
				continue
			}
			k = last + 1
		}
	}

	// 3. shrink the schedule: replay the recorded decisions and drop them
	note := fmt.Sprintf("plan shrunk in %d runs", runs)
	tr := cur
	tr.Trace = true
	o, ok := fails(tr)
	if !ok || !o.ScriptOK {
		return cur, note + ", schedule given by seed"
	}
	sc := cur
	sc.Replay = true
	sc.Script = o.Script
	if _, ok := fails(sc); !ok {
		return cur, note + ", schedule given by seed"
	}
	total := len(sc.Script) / 2
	chunk := total
	for chunk >= 1 && time.Now().Before(deadline.Add(30*time.Second)) {
		var cs []input
		n := len(sc.Script) / 2
		for at := 0; at < n; at += chunk {
			c := sc
			c.Script = append(append([]uint32(nil), sc.Script[:2*at]...), sc.Script[2*min(n, at+chunk):]...)
			cs = append(cs, c)
		}
		found := false
		for len(cs) > 0 && time.Now().Before(deadline.Add(30*time.Second)) {
			m := min(*jobs, len(cs))
			okv := make([]bool, m)
			var wg sync.WaitGroup
			for i := 0; i < m; i++ {
				wg.Add(1)
				go func(i int) { defer wg.Done(); _, okv[i] = fails(cs[i]) }(i)
			}
			wg.Wait()
			for i := 0; i < m && !found; i++ {
				if okv[i] {
					sc, found = cs[i], true
				}
			}
			if found {
				break
			}
			cs = cs[m:]
		}
		if !found {
			chunk /= 2
		} else if chunk > len(sc.Script)/2 {
			chunk = max(1, len(sc.Script)/2)
		}
		if len(sc.Script) == 0 {
			break
		}
	}
	return sc, fmt.Sprintf("%d runs; %d of %d scheduling decisions remain", runs, len(sc.Script)/2, total)
}

func same(a, b input) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

type mutation func(root *any) bool

// mutations lists reductions of a JSON tree, coarse ones first.
func mutations(v any, path []any) []mutation {
	var arr, rest []mutation
	var walk func(v any, path []any)
	walk = func(v any, path []any) {
		path = append([]any(nil), path...)
		switch x := v.(type) {
		case map[string]any:
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sortStrings(keys)
			for _, k := range keys {
				if len(path) == 0 && (k == "Prop" || k == "World" || k == "Sched" || k == "Seed") {
					continue
				}
				walk(x[k], append(path, k))
			}
		case []any:
			n := len(x)
			for size := n; size >= 1; size /= 2 {
				for at := 0; at < n; at += size {
					at, size := at, size
					arr = append(arr, func(root *any) bool {
						return edit(root, path, func(v any) (any, bool) {
							l, ok := v.([]any)
							if !ok || at >= len(l) {
								return nil, false
							}
							end := min(len(l), at+size)
							return append(append([]any{}, l[:at]...), l[end:]...), true
						})
					})
				}
			}
			for i := range x {
				walk(x[i], append(path, i))
			}
		case float64:
			for _, f := range []float64{0, 1, float64(int64(x / 2))} {
				f := f
				if f == x {
					continue
				}
				rest = append(rest, func(root *any) bool {
					return edit(root, path, func(v any) (any, bool) {
						y, ok := v.(float64)
						return f, ok && f < y
					})
				})
			}
		case bool:
			if x {
				rest = append(rest, func(root *any) bool {
					return edit(root, path, func(v any) (any, bool) { return false, v == true })
				})
			}
		}
	}
	walk(v, path)
	return append(arr, rest...)
}

func edit(root *any, path []any, f func(any) (any, bool)) bool {
	if len(path) == 0 {
		n, ok := f(*root)
		if ok {
			*root = n
		}
		return ok
	}
	switch k := path[0].(type) {
	case string:
		m, ok := (*root).(map[string]any)
		if !ok {
			return false
		}
		c, ok := m[k]
		if !ok || !edit(&c, path[1:], f) {
			return false
		}
		m[k] = c
		return true
	case int:
		l, ok := (*root).([]any)
		if !ok || k >= len(l) {
			return false
		}
		c := l[k]
		if !edit(&c, path[1:], f) {
			return false
		}
		l[k] = c
		return true
	}
	return false
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j-1] > s[j]; j-- {
			s[j-1], s[j] = s[j], s[j-1]
		}
	}
}
