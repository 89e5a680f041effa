package gen

import "verifsim/plan"

func init() {
	register(&Gen{Prop: "C17", World: "resume", Quick: 3000, Make: resume, Rule: "at least three acknowledged URLs and three pages",
		Real:   []string{"ant engine, fetcher, page, dedupers, matchers (repository code, instrumented)", "x/sync errgroup and semaphore"},
		Stub:   []string{"persistent queue (reference implementation of ant.Queue that keeps its content over crashes)", "client, scraper, limiter", "clock"},
		Assume: append([]string{"a crash stops the process between two calls into the queue, the client or the scraper; the queue's own operations are atomic and durable", "dedupers do not survive a crash"}, crawlAssume...)})
}

func resume(r *R, p *plan.Plan, thorough bool) {
	n := r.In(2, 10)
	if thorough && r.P(20) {
		n = r.In(10, 40)
	}
	s := &plan.Resume{Workers: Pick(r, 0, 1, 1, 2, 3, 4), Conc: Pick(r, 0, 0, 1, 2, 3), Dedup: Pick(r, "", "map", "bf"), Direct: r.P(40)}
	if r.P(50) {
		s.QLat = r.LogUs(5000)
	}
	if r.P(30) {
		s.Limiter = 1 + r.LogUs(5000)
	}
	lat := r.P(75)
	for i := 0; i < n; i++ {
		pg := plan.RPage{}
		if lat {
			pg.Lat, pg.ScrLat = r.LogUs(10000), r.LogUs(10000)
		}
		if i > 0 && r.P(6) {
			pg.Answer = []string{"404"}
		} else if r.P(8) {
			pg.Answer = []string{"redirect"}
		} else if r.P(10) {
			pg.Answer = []string{Pick(r, "503", "timeout"), ""}
		}
		if r.P(8) {
			pg.Scr = []string{"temp", ""}
		}
		s.Pages = append(s.Pages, pg)
	}
	shape := r.N(4)
	for i := 1; i < n; i++ {
		from := r.N(i)
		switch shape {
		case 0:
			from = i - 1
		case 1:
			from = 0
		case 2:
			from = (i - 1) / 2
		}
		s.Pages[from].Links = append(s.Pages[from].Links, i)
	}
	for k := r.N(2*n + 1); k > 0; k-- {
		f := r.N(n)
		s.Pages[f].Links = append(s.Pages[f].Links, r.N(n))
	}
	s.Starts = []int{0}
	for k := r.N(3); k > 0; k-- {
		s.Starts = append(s.Starts, r.N(n))
	}
	if r.P(20) {
		s.Match = r.U() &^ 1
		if r.P(50) {
			s.Match &= r.U() & r.U()
		}
	}
	for k := r.N(4); k > 0; k-- {
		s.Lives = append(s.Lives, plan.Life{Crash: r.In(1, 3+8*n), Starts: r.P(25), Front: r.P(50)})
	}
	if r.P(20) {
		k := r.N(len(s.Lives) + 1)
		s.Lives = append(s.Lives[:k], append([]plan.Life{{Cancel: r.In(1, 3+8*n)}}, s.Lives[k:]...)...)
	}
	if r.P(15) {
		pg := &s.Pages[r.N(n)]
		if r.P(50) {
			pg.Answer = []string{"perm", ""}
		} else {
			pg.Scr = []string{"perm", ""}
		}
	}
	p.Resume = s
}
