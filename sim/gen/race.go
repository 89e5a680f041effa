package gen

import "verifsim/plan"

func init() {
	of := []string{
		"C01", "C03", "C04", "C05", "C06", "C07", "C08", // the engine, polite and not
		"C09", "C10", "C12", "C12", "C13", "C14", "C14", "C15", "C16",
		"C20", "C20", "C23", "C24", "C26", "C26",
		"C31", "C31", "C32", "C33",
		"C40", "C41", "C43",
	}
	register(&Gen{Prop: "R01", World: "race", Quick: 1200, Race: true, Make: func(r *R, p *plan.Plan, thorough bool) {
		g := gens[Pick(r, of...)]
		p.World, p.Prop = g.World, g.Prop
		g.Make(r, p, thorough)
		p.Prop = "R01"
		p.Race = &plan.Race{Of: g.Prop}
	},
		Rule: "the workload of another property, non-trivial by that property's rule, executed under the race detector",
		Real: []string{"all components the other properties run, compiled with -race: engine, fetcher, dedupers, queue, limiters, matchers, JSON scraper, page scanner and selector cache, robots.txt cache, HTTP cache, memory and disk storage, browser client (instrumented)", "Go race detector (happens-before over the program's own synchronisation)"},
		Stub: []string{"network and servers, file system, browser, clock, callers"},
		Assume: []string{
			"a race is reported only if both accesses are executed in one run without an intervening synchronisation; other schedules are not covered",
			"simulated connections and files order accesses no more than real sockets and files do",
			"harness state is exempt: reports whose two accesses are both made by harness code are counted, not judged",
		}})
}
