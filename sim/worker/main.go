// Command worker executes one plan under the simulator and prints the verdict.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verifsim/plan"
)

// Input is what the controller sends.
type Input struct {
	Plan   plan.Plan
	Script []uint32 `json:",omitempty"` // idx,val pairs
	Replay bool     // use the script
	Trace  bool
}

func main() {
	debug.SetGCPercent(-1)
	b, err := io.ReadAll(bufio.NewReader(os.Stdin))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var in Input
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Fprintln(os.Stderr, "worker: input:", err)
		os.Exit(3)
	}
	for i := 0; i+1 < len(in.Script); i += 2 {
		if !runtime.SimScriptAdd(in.Script[i], in.Script[i+1]) {
			fmt.Fprintln(os.Stderr, "worker: script too long")
			os.Exit(3)
		}
	}
	if in.Plan.Race != nil {
		in.Plan.Prop = in.Plan.Race.Of
	}
	e := newEnv(&in.Plan, in.Trace)
	s := in.Plan.Sched
	if s.StepCap == 0 {
		s.StepCap = 3_000_000
	}
	w := worlds[in.Plan.World]
	if w == nil {
		fmt.Fprintln(os.Stderr, "worker: no world", in.Plan.World)
		os.Exit(3)
	}
	cfg := runtime.SimConfig{
		Seed: in.Plan.Seed*0x9e3779b97f4a7c15 ^ s.Seed, StartNano: startNano, Script: in.Replay, Fifo: s.Fifo,
		YieldP: s.YieldP, SiteMod: s.SiteMod, StallP: s.StallP, StallMax: s.StallMax,
		Pct: s.Pct, PctSpan: s.PctSpan, StepCap: s.StepCap,
	}
	sim = e
	runtime.SimStart(cfg, func() {
		e.Violate(e.P.Prop, "livelock", "more than %d steps: the code spins or never makes progress (at %v)", s.StepCap, e.Now())
		e.stack = allStacks()
		e.finish()
	})
	w(e)
	e.finish()
}

const startNano = 1700000000e9

var worlds = map[string]func(*Env){}

var sim *Env

// Env records what happens in one execution and collects violations.
// The simulator never preempts uninstrumented code, so no locking is needed.
type Env struct {
	P       *plan.Plan
	trace   bool
	log     []string
	logHash uint64
	seq     int
	viols   []Viol
	Faults  map[string]int
	Probes  map[string]int
	stack   string
	done    bool
	nontriv bool
}

// Viol is a violation.
type Viol struct {
	Prop, Class, Msg string
	AtUs             int64
}

// Output is what the worker reports.
type Output struct {
	Viols    []Viol         `json:",omitempty"`
	Faults   map[string]int `json:",omitempty"`
	Probes   map[string]int `json:",omitempty"`
	Log      []string       `json:",omitempty"`
	LogHash  uint64
	Events   int
	Stats    runtime.SimStats
	SimUs    int64
	Script   []uint32 `json:",omitempty"`
	ScriptOK bool
	Stack    string `json:",omitempty"`
	Nontriv  bool
}

func newEnv(p *plan.Plan, trace bool) *Env {
	return &Env{P: p, trace: trace, Faults: map[string]int{}, Probes: map[string]int{}}
}

// Now is the simulated time since the start.
func (e *Env) Now() time.Duration { return time.Duration(runtime.SimNano() - startNano) }

// Us is the simulated time in microseconds.
func (e *Env) Us() int64 { return int64(e.Now() / time.Microsecond) }

// Logf records an event; it returns the event's sequence number.
func (e *Env) Logf(f string, a ...any) int {
	e.seq++
	if raceMode {
		return e.seq
	}
	s := fmt.Sprintf("%d %dus g%d ", e.seq, e.Us(), runtime.SimGoid()) + fmt.Sprintf(f, a...)
	h := e.logHash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	e.logHash = h
	runtime.SimFold(h)
	if e.trace && len(e.log) < 20000 {
		e.log = append(e.log, s)
	}
	return e.seq
}

// Fault counts an injected fault.
func (e *Env) Fault(kind string) {
	e.Faults[kind]++
	e.Logf("FAULT %s", kind)
}

// Probe counts a reached condition.
func (e *Env) Probe(name string) {
	e.Probes[name]++
}

// Violate records a violation of prop.
func (e *Env) Violate(prop, class, f string, a ...any) {
	if raceMode {
		return // the race detector judges these runs
	}
	msg := fmt.Sprintf(f, a...)
	if prop == e.P.Prop {
		if len(e.viols) < 20 {
			e.viols = append(e.viols, Viol{prop, class, msg, e.Us()})
		}
	}
	e.Logf("VIOLATION %s/%s %s", prop, class, msg)
}

// V records a violation of the checked property.
func (e *Env) V(class, f string, a ...any) { e.Violate(e.P.Prop, class, f, a...) }

// Is reports whether one of the properties is being checked.
func (e *Env) Is(props ...string) bool {
	for _, p := range props {
		if p == e.P.Prop {
			return true
		}
	}
	return false
}

func (e *Env) finish() {
	if e.done {
		select {}
	}
	e.done = true
	st := runtime.SimGetStats()
	runtime.SimStop()
	o := Output{Viols: e.viols, Faults: e.Faults, Probes: e.Probes, LogHash: e.logHash, Events: e.seq, Stats: st, SimUs: (st.Nano - startNano) / 1000, Nontriv: e.nontriv}
	if e.trace {
		o.Log = e.log
		o.Stack = e.stack
		idx, val, ok := runtime.SimRecorded()
		o.ScriptOK = ok
		if ok {
			o.Script = make([]uint32, 0, 2*len(idx))
			for i := range idx {
				o.Script = append(o.Script, idx[i], val[i])
			}
		}
	}
	b, err := json.Marshal(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: output:", err)
		os.Exit(3)
	}
	os.Stdout.Write(append(b, '\n'))
	os.Exit(0)
}

func allStacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

// antStacks returns the stacks of goroutines running or created by code of the
// repository.
func antStacks() []string {
	var ret []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "github.com/yields/ant") && !strings.Contains(g, "main.antStacks") {
			ret = append(ret, g)
		}
	}
	return ret
}

// within runs f and waits for it at most d of simulated time; it reports
// whether f returned.  Panics of f are violations.
func (e *Env) within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		select {
		case <-done:
			return true
		default:
		}
		e.stack = allStacks()
		return false
	}
}

// mix derives a deterministic number from its arguments.
func mix(vs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vs {
		h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func us(n int) time.Duration { return time.Duration(n) * time.Microsecond }

func min0(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func itoa(n int) string { return fmt.Sprint(n) }
