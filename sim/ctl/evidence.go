package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"verifsim/gen"
	"verifsim/plan"
)

type agg struct {
	prop      string
	runs      int
	nontriv   int
	distinct  map[uint64]bool
	schedules map[uint64]bool
	faults    map[string]int
	probes    map[string]int
	strat     map[string]int
	simUs     int64
	steps     uint64
	decisions uint64
	preempts  uint64
	stalls    uint64
	events    int
	redone    int
	viol      int
	samples   []any
}

func newAgg(prop string) *agg {
	return &agg{prop: prop, distinct: map[uint64]bool{}, schedules: map[uint64]bool{}, faults: map[string]int{}, probes: map[string]int{}, strat: map[string]int{}}
}

func strategy(s plan.Sched) string {
	n := "random"
	switch {
	case s.Pct > 0:
		n = "priority"
	case s.Fifo:
		n = "fifo"
	}
	if s.YieldP > 0 {
		n += "+preempt"
	}
	if s.SiteMod > 1 {
		n += "+sites"
	}
	if s.StallP > 0 {
		n += "+stall"
	}
	return n
}

func (a *agg) add(i int, p *plan.Plan, o *output) {
	a.runs++
	if o.Nontriv {
		a.nontriv++
		a.distinct[o.LogHash^o.Stats.Hash] = true
	}
	a.schedules[o.Stats.Hash] = true
	for k, v := range o.Faults {
		a.faults[k] += v
	}
	for k, v := range o.Probes {
		a.probes[k] += v
	}
	a.strat[strategy(p.Sched)]++
	a.simUs += o.SimUs
	a.steps += o.Stats.Steps
	a.decisions += o.Stats.Decisions
	a.preempts += o.Stats.Preempts
	a.stalls += o.Stats.Stalls
	a.events += o.Events
	if len(a.samples) < 2 && o.Nontriv {
		a.samples = append(a.samples, map[string]any{"run": i, "plan": p, "steps": o.Stats.Steps, "decisions": o.Stats.Decisions, "preemptions": o.Stats.Preempts, "faults": o.Faults, "reached": o.Probes, "simulated_us": o.SimUs, "events": o.Events, "execution_hash": fmt.Sprintf("%016x", o.Stats.Hash)})
	}
}

func (a *agg) totalFaults() int {
	n := 0
	for _, v := range a.faults {
		n += v
	}
	return n
}

func (a *agg) evidence(start time.Time, buildS, simS float64, g *gen.Gen) {
	perHour := 0.0
	if simS > 0 {
		perHour = float64(a.runs) / simS * 3600
	}
	ev := map[string]any{
		"property": a.prop,
		"tier":     tier(),
		"seed":     int64(seed() & (1<<53 - 1)),
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":              a.runs,
			"distinct_nontrivial":      len(a.distinct),
			"rule":                     "one evaluation is one simulated execution of a generated plan (workload, configuration, faults, scheduling strategy and seed) in a fresh process; non-trivial: " + g.Rule + "; distinct: different hash of the recorded event history",
			"samples":                  a.samples,
			"nontrivial_runs":          a.nontriv,
			"distinct_executions":      len(a.schedules),
			"distinct_executions_rule": "hash over every scheduling decision, the goroutine it picked and every recorded event",
			"runs_per_hour":            int64(perHour),
			"seeds_per_hour":           int64(perHour),
			"simulated_seconds":        float64(a.simUs) / 1e6,
			"faults_injected":          a.faults,
			"conditions_reached":       a.probes,
			"scheduling_strategies":    a.strat,
			"instrumented_statements":  sites,
			"statements_executed":      a.steps,
			"scheduling_decisions":     a.decisions,
			"preemptions":              a.preempts,
			"stalls":                   a.stalls,
			"events_recorded":          a.events,
			"determinism_rechecks":     a.redone,
			"real_components":          g.Real,
			"stubbed_components":       g.Stub,
			"build_seconds":            buildS,
		},
		"assumptions": g.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  a.viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	dir := filepath.Join(filepath.Dir(*simDir), "evidence")
	must(os.MkdirAll(dir, 0o755))
	must(os.WriteFile(filepath.Join(dir, a.prop+".json"), append(b, '\n'), 0o644))
}
