// Command simctl builds the simulator from /repo's working tree, runs seeded
// simulations of one property, minimises and reports violations, and writes
// the evidence file.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifsim/gen"
	"verifsim/plan"
)

type input struct {
	Plan   plan.Plan
	Script []uint32 `json:",omitempty"`
	Replay bool
	Trace  bool
}

type viol struct {
	Prop, Class, Msg string
	AtUs             int64
}

type stats struct {
	Steps, Decisions, Picks, Preempts, Stalls, Hash uint64
	Nano                                            int64
}

type output struct {
	Viols    []viol
	Faults   map[string]int
	Probes   map[string]int
	Log      []string
	LogHash  uint64
	Events   int
	Stats    stats
	SimUs    int64
	Script   []uint32
	ScriptOK bool
	Stack    string
	Nontriv  bool

	harness string // the worker failed for reasons of its own
	dur     time.Duration
}

var (
	simDir = flag.String("sim", "", "directory of the simulator sources")
	repo   = flag.String("repo", "/repo", "repository under test")
	bldDir = flag.String("build", "", "build directory")
	nRuns  = flag.Int("n", 0, "override the number of runs")
	seedF  = flag.Uint64("seed", 0, "seed (default: VERIF_SEED)")
	jobs   = flag.Int("j", 0, "parallel workers")
	noMin  = flag.Bool("nomin", false, "do not minimise")
	keep   = flag.Bool("all", false, "do not stop at the first violation")
	from   = flag.Int("from", 0, "first run index")
	quiet  = flag.Bool("q", false, "no progress")
)

func main() {
	flag.Parse()
	if *simDir == "" {
		*simDir = "/verif/sim"
	}
	if *bldDir == "" {
		*bldDir = filepath.Join(filepath.Dir(*simDir), ".build")
	}
	if *jobs == 0 {
		*jobs = runtime.NumCPU()
	}
	a := flag.Args()
	if len(a) == 0 {
		fatalf("usage: simctl check PROP | run PROP INDEX | replay FILE | selftest [PROP...] | build")
	}
	switch a[0] {
	case "build":
		build(false)
		if len(a) > 1 {
			build(true)
		}
	case "check":
		check(a[1])
	case "run":
		i, _ := strconv.Atoi(a[2])
		one(a[1], i)
	case "plan":
		i, _ := strconv.Atoi(a[2])
		p := gen.Make(a[1], runSeed(seed(), a[1], i), tier(), i)
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	case "replay":
		replay(a[1])
	case "selftest":
		selftest(a[1:])
	case "props":
		for _, p := range gen.Props() {
			fmt.Println(p)
		}
	default:
		fatalf("unknown command %q", a[0])
	}
}

func seed() uint64 {
	if *seedF != 0 {
		return *seedF
	}
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return gen.StrHash(s)
	}
	return n
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func runSeed(seed uint64, prop string, i int) uint64 {
	return gen.Mix(seed, gen.StrHash(prop), uint64(i)) | 1
}

// build generates the overlay and builds the worker.
func build(race bool) string {
	variant := "plain"
	if race {
		variant = "race"
	}
	dir := filepath.Join(*bldDir, variant)
	src := filepath.Join(*bldDir, "overlay")
	must(os.MkdirAll(dir, 0o755))
	must(os.MkdirAll(src, 0o755))
	lock, err := os.OpenFile(filepath.Join(*bldDir, "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	must(err)
	must(syscall.Flock(int(lock.Fd()), syscall.LOCK_EX))
	defer lock.Close()

	goroot := strings.TrimSpace(run(*simDir, "go", "env", "GOROOT"))
	o := &overlay{root: filepath.Join(goroot, "src"), out: src, rt: filepath.Join(*simDir, "rt"), rep: map[string]string{}}
	o.std()
	var site uint32
	// Packages that get a preemption point before every statement: the
	// repository, and the dependencies that synchronise goroutines.
	pat := map[string][]string{
		"golang.org/x/sync":             {"errgroup", "semaphore"},
		"golang.org/x/time":             {"rate"},
		"github.com/willf/bloom":        {"."},
		"github.com/willf/bitset":       {"."},
		"github.com/segmentio/agecache": {"."},
		"github.com/mafredri/cdp":       {"rpcc"},
	}
	// The repository's packages are instrumented through the overlay.
	deps := run(*simDir, "go", "list", "-deps", "-f", "{{.ImportPath}} {{.Dir}}", "github.com/yields/ant", "github.com/yields/ant/antcache", "github.com/yields/ant/antcdp")
	nfiles := 0
	for _, l := range strings.Split(deps, "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && (f[0] == "github.com/yields/ant" || strings.HasPrefix(f[0], "github.com/yields/ant/")) && !strings.Contains(f[0], "/_examples/") {
			nfiles += o.instrumentDir(f[1], &site)
		}
	}
	if nfiles < 5 {
		fatalf("only %d files instrumented", nfiles)
	}
	ov := filepath.Join(*bldDir, "overlay.json")
	o.save(ov)
	// Module cache files cannot be overlaid: these modules are copied.
	gomod, err := os.ReadFile(filepath.Join(*simDir, "go.mod"))
	must(err)
	gosum, err := os.ReadFile(filepath.Join(*simDir, "go.sum"))
	must(err)
	mods := make([]string, 0, len(pat))
	for m := range pat {
		mods = append(mods, m)
	}
	sort.Strings(mods)
	mod := string(gomod)
	for _, m := range mods {
		from := strings.TrimSpace(run(*simDir, "go", "list", "-m", "-f", "{{.Dir}}", m))
		to := filepath.Join(*bldDir, "mod", strings.ReplaceAll(m, "/", "_"))
		copyModule(from, to, m, pat[m], &site)
		mod += fmt.Sprintf("\nreplace %s => %s\n", m, to)
	}
	modfile := filepath.Join(*bldDir, "go.mod")
	writeIfChanged(modfile, []byte(mod))
	if old, err := os.ReadFile(filepath.Join(*bldDir, "go.sum")); err != nil || len(old) == 0 {
		must(os.WriteFile(filepath.Join(*bldDir, "go.sum"), gosum, 0o644))
	}
	bin := filepath.Join(dir, "worker")
	args := []string{"build", "-modfile", modfile, "-overlay", ov, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./worker")
	cmd := exec.Command("go", args...)
	cmd.Dir = *simDir
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		fatalf("build failed: %v\n%s", err, out)
	}
	sites = int(site)
	return bin
}

var sites int

func goEnv() []string {
	e := os.Environ()
	e = append(e, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off")
	return e
}

func run(dir string, name string, args ...string) string {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		fatalf("%s %v: %v\n%s", name, args, err, errb.String())
	}
	return string(out)
}

// exec runs one simulation in a fresh process.
func execute(bin string, in input) output {
	b, err := json.Marshal(in)
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = bytes.NewReader(b)
	cmd.Env = []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=0 history_size=2", "TZ=UTC"}
	cmd.Dir = "/"
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	t := time.Now()
	err = cmd.Run()
	var o output
	o.dur = time.Since(t)
	if err == nil {
		if e := json.Unmarshal(stdout.Bytes(), &o); e != nil {
			o.harness = fmt.Sprintf("bad output: %v: %.300s %.300s", e, stdout.String(), stderr.String())
		}
		o.races(in.Plan.Prop, stderr.String())
		return o
	}
	if ctx.Err() != nil {
		o.harness = "wall clock watchdog: the worker did not finish within 120 s"
		return o
	}
	var xe *exec.ExitError
	if !errors.As(err, &xe) {
		o.harness = err.Error()
		return o
	}
	text := stderr.String()
	switch {
	case xe.ExitCode() == 2 && (strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:")):
		first := text
		if i := strings.Index(first, "\ngoroutine "); i >= 0 {
			rest := first[i+1:]
			if j := strings.Index(rest, "\n\n"); j >= 0 {
				rest = rest[:j]
			}
			first = first[:i+1] + rest
		}
		if !strings.Contains(first, "github.com/yields/ant") || harnessPanic(first) {
			o.harness = "worker crashed:\n" + head(text, 4000)
			return o
		}
		o.Viols = []viol{{in.Plan.Prop, "panic", panicSummary(first), 0}}
		o.Stack = head(first, 6000)
		o.LogHash = gen.StrHash(panicSummary(first))
	default:
		o.harness = fmt.Sprintf("worker exit %d: %s", xe.ExitCode(), head(text, 3000))
	}
	return o
}

// harnessPanic reports whether the innermost non-runtime frame is the harness.
func harnessPanic(s string) bool {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(s[i+1:], "\n")[1:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "sync.") || strings.HasPrefix(l, "internal/") || strings.HasPrefix(l, "reflect.") {
			continue
		}
		return strings.HasPrefix(l, "main.")
	}
	return false
}

var addrRE = regexp.MustCompile(`0x[0-9a-f]+|\+0x[0-9a-f]+|goroutine \d+`)

func panicSummary(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "github.com/yields/ant") && !strings.HasPrefix(l, "\t") {
			keep = append(keep, addrRE.ReplaceAllString(l, "?"))
		}
		if len(keep) > 6 {
			break
		}
	}
	return strings.Join(keep, " | ")
}

// races turns the race detector's reports into violations.  A report counts
// when one of the two accesses was made by code under test: the innermost
// frame outside the standard library is not the harness.  Harness state needs
// no synchronisation in the simulator (its code is never preempted), so races
// between two harness accesses mean nothing.
func (o *output) races(prop, text string) {
	if !strings.Contains(text, "WARNING: DATA RACE") {
		return
	}
	if o.Probes == nil {
		o.Probes = map[string]int{}
	}
	seen := map[string]bool{}
	for _, rep := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(rep, "=================="); i >= 0 {
			rep = rep[:i]
		}
		msg, counts := raceReport(rep)
		if !counts {
			o.Probes["harness-race"]++
			continue
		}
		if seen[msg] {
			continue
		}
		seen[msg] = true
		if len(o.Viols) == 0 {
			o.Stack = head(rep, 6000)
		}
		o.Viols = append(o.Viols, viol{prop, "race", msg, 0})
		o.LogHash ^= gen.StrHash(msg)
	}
}

func raceReport(rep string) (string, bool) {
	var parts []string
	counts := false
	for _, sec := range strings.Split(strings.TrimSpace(rep), "\n\n") {
		lines := strings.Split(sec, "\n")
		h := strings.ToLower(lines[0])
		if !strings.Contains(h, "read at") && !strings.Contains(h, "write at") {
			continue
		}
		what := "write"
		if strings.Contains(h, "read at") {
			what = "read"
		}
		who, at := "?", ""
		if len(lines) > 3 && strings.Contains(lines[1], "runtime.mapaccess2") && strings.Contains(lines[3], "runtime.mapaccess1") {
			// Go's map functions lose the frame of the accessing function
			// here; the other access decides (one of two is a write).
			lines = lines[:1]
		}
		for i := 1; i+1 < len(lines); i += 2 {
			f, file := strings.TrimSpace(lines[i]), strings.TrimSpace(lines[i+1])
			if !strings.Contains(f, ".") || stdFunc(f) {
				continue
			}
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			if j := strings.Index(file, " +0x"); j > 0 {
				file = file[:j]
			}
			who, at = f, filepath.Base(file)
			break
		}
		if who != "?" && !strings.HasPrefix(who, "main.") && !strings.HasPrefix(who, "verifsim/") {
			counts = true
		}
		parts = append(parts, what+" in "+who+" ("+at+")")
	}
	return strings.Join(parts, " and "), counts
}

// stdFunc reports whether a function belongs to the standard library.
func stdFunc(f string) bool {
	first, _, slash := strings.Cut(f, "/")
	if !slash {
		return !strings.HasPrefix(f, "main.")
	}
	return !strings.Contains(first, ".") && first != "verifsim"
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// finding is an entry of the known-findings file.
type finding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"` // regular expression over the violation message
	What     string `json:"what"`
}

func knownFindings() []finding {
	var ret []finding
	b, err := os.ReadFile(filepath.Join(filepath.Dir(*simDir), "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: ") {
			var f finding
			if err := json.Unmarshal([]byte(strings.TrimPrefix(l, "known: ")), &f); err != nil {
				fatalf("known-findings.txt: %v", err)
			}
			ret = append(ret, f)
		}
	}
	return ret
}

// known splits violations into listed findings and new ones.
func known(fs []finding, vs []viol) (hit []finding, fresh []viol) {
	for _, v := range vs {
		ok := false
		for _, f := range fs {
			if f.Property == v.Prop && f.Class == v.Class && regexp.MustCompile(f.Match).MatchString(v.Msg) {
				hit = append(hit, f)
				ok = true
				break
			}
		}
		if !ok {
			fresh = append(fresh, v)
		}
	}
	return
}

// replayFile is a self-contained reproduction.
type replayFile struct {
	Property string
	Class    string
	Message  string
	Seed     uint64
	RunIndex int
	Race     bool
	Input    input
	LogHash  uint64
	Sched    uint64
	History  []string
	Stack    string `json:",omitempty"`
	Note     string
}

func check(prop string) {
	start := time.Now()
	g := gen.Get(prop)
	if g == nil {
		fatalf("no generator for property %q", prop)
	}
	bin := build(g.Race)
	buildS := time.Since(start).Seconds()
	n := g.Quick * 6
	wall := 150 * time.Second
	if tier() == "thorough" {
		n = g.Quick * 240
		wall = 40 * time.Minute
	}
	if *nRuns > 0 {
		n = *nRuns
	}
	base := seed()
	fs := knownFindings()

	var (
		mu       sync.Mutex
		next     = int64(*from) - 1
		stop     atomic.Bool
		agg      = newAgg(prop)
		bad      = -1
		badOut   output
		harness  string
		findings = map[string]finding{}
		classes  = map[string]int{}
		wg       sync.WaitGroup
	)
	t0 := time.Now()
	for w := 0; w < *jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= *from+n || time.Since(t0) > wall {
					return
				}
				p := gen.Make(prop, runSeed(base, prop, i), tier(), i)
				o := execute(bin, input{Plan: *p})
				redo := i%37 == 5
				var o2 output
				if redo && o.harness == "" {
					o2 = execute(bin, input{Plan: *p})
				}
				mu.Lock()
				if o.harness != "" {
					if harness == "" {
						harness = fmt.Sprintf("run %d: %s", i, o.harness)
					}
					stop.Store(true)
				}
				if redo && o.harness == "" && (o2.harness != "" || o2.LogHash != o.LogHash || o2.Stats.Hash != o.Stats.Hash || len(o2.Viols) != len(o.Viols)) {
					harness = fmt.Sprintf("run %d is not deterministic: %x/%x vs %x/%x %s", i, o.LogHash, o.Stats.Hash, o2.LogHash, o2.Stats.Hash, o2.harness)
					stop.Store(true)
				}
				if redo {
					agg.redone++
				}
				agg.add(i, p, &o)
				hit, fresh := known(fs, o.Viols)
				for _, f := range hit {
					findings[f.What] = f
				}
				if len(fresh) > 0 {
					classes[fresh[0].Class]++
					if *keep && classes[fresh[0].Class] < 6 {
						fmt.Printf("run %d seed %d: %s: %s\n", i, p.Seed, fresh[0].Class, fresh[0].Msg)
					}
					o.Viols = fresh
					if bad < 0 || i < bad {
						bad, badOut = i, o
					}
					agg.viol++
					if !*keep {
						stop.Store(true)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	simS := time.Since(t0).Seconds()
	if bad < 0 && harness != "" {
		fatalf("%s", harness)
	}
	keys := []string{}
	for k := range findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	agg.evidence(start, buildS, simS, g)
	if bad >= 0 {
		path := report(bin, g, prop, base, bad, badOut, fs)
		for k, v := range classes {
			fmt.Printf("class %s: %d runs\n", k, v)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		os.Exit(1)
	}
	fmt.Printf("OK property=%s runs=%d distinct=%d simulated=%s build=%.1fs sim=%.1fs faults=%d\n", prop, agg.runs, len(agg.distinct), time.Duration(agg.simUs)*time.Microsecond, buildS, simS, agg.totalFaults())
}

func report(bin string, g *gen.Gen, prop string, base uint64, idx int, o output, fs []finding) string {
	p := gen.Make(prop, runSeed(base, prop, idx), tier(), idx)
	in := input{Plan: *p}
	fmt.Printf("run %d (seed %d): %s: %s\n", idx, p.Seed, o.Viols[0].Class, o.Viols[0].Msg)
	best := in
	note := "not minimised"
	if !*noMin {
		best, note = minimise(bin, in, o.Viols[0].Class, fs)
	}
	best.Trace = true
	fin := execute(bin, best)
	r := replayFile{Property: prop, Class: o.Viols[0].Class, Message: o.Viols[0].Msg, Seed: base, RunIndex: idx, Race: g.Race, Input: best, LogHash: fin.LogHash, Sched: fin.Stats.Hash, History: fin.Log, Stack: fin.Stack, Note: note}
	for _, v := range fin.Viols {
		if v.Class == r.Class {
			r.Message = v.Msg
			break
		}
	}
	dir := filepath.Join(filepath.Dir(*simDir), "replays")
	must(os.MkdirAll(dir, 0o755))
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, base, idx))
	b, err := json.MarshalIndent(r, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0o644))
	fmt.Printf("minimised (%s): %s\n", note, r.Message)
	return path
}

func replay(path string) {
	b, err := os.ReadFile(path)
	must(err)
	var r replayFile
	must(json.Unmarshal(b, &r))
	bin := build(r.Race)
	in := r.Input
	in.Trace = true
	o := execute(bin, in)
	if o.harness != "" {
		fatalf("%s", o.harness)
	}
	for _, l := range o.Log {
		fmt.Println(l)
	}
	if o.Stack != "" {
		fmt.Println(o.Stack)
	}
	for _, v := range o.Viols {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
	}
	same := o.LogHash == r.LogHash && o.Stats.Hash == r.Sched
	fmt.Printf("execution identical to the recorded one: %v\n", same)
	for _, v := range o.Viols {
		if v.Class == r.Class {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
			os.Exit(1)
		}
	}
	fmt.Printf("the violation does not occur\n")
}

func one(prop string, i int) {
	g := gen.Get(prop)
	bin := build(g.Race)
	p := gen.Make(prop, runSeed(seed(), prop, i), tier(), i)
	o := execute(bin, input{Plan: *p, Trace: true})
	for _, l := range o.Log {
		fmt.Println(l)
	}
	if o.Stack != "" {
		fmt.Println(o.Stack)
	}
	fmt.Println(o.harness)
	fmt.Printf("%+v faults=%v probes=%v sim=%dus nontriv=%v dur=%v\n", o.Stats, o.Faults, o.Probes, o.SimUs, o.Nontriv, o.dur)
	for _, v := range o.Viols {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
	}
}

// selftest runs many seeds twice, in random mode and once more from the
// recorded script, at different worker counts, and compares the executions.
func selftest(props []string) {
	if len(props) == 0 {
		props = gen.Props()
	}
	n := 60
	if *nRuns > 0 {
		n = *nRuns
	}
	bad := 0
	for _, prop := range props {
		g := gen.Get(prop)
		bin := build(g.Race)
		type rec struct{ a, b uint64 }
		var mu sync.Mutex
		res := map[int]rec{}
		scriptBad := 0
		scripted := 0
		for pass, j := range []int{*jobs, 3} {
			var wg sync.WaitGroup
			next := int64(-1)
			for w := 0; w < j; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						i := int(atomic.AddInt64(&next, 1))
						if i >= n {
							return
						}
						p := gen.Make(prop, runSeed(seed(), prop, i), tier(), i)
						o := execute(bin, input{Plan: *p, Trace: pass == 0})
						mu.Lock()
						if o.harness != "" {
							fmt.Printf("%s run %d: %s\n", prop, i, o.harness)
							bad++
						}
						if pass == 0 {
							res[i] = rec{o.LogHash, o.Stats.Hash}
						} else if res[i] != (rec{o.LogHash, o.Stats.Hash}) {
							fmt.Printf("%s run %d differs\n", prop, i)
							bad++
						}
						mu.Unlock()
						if pass == 0 && o.ScriptOK {
							o2 := execute(bin, input{Plan: *p, Trace: true, Replay: true, Script: o.Script})
							mu.Lock()
							scripted++
							if o2.LogHash != o.LogHash || o2.Stats.Hash != o.Stats.Hash {
								scriptBad++
							}
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
		}
		fmt.Printf("%s: %d seeds twice, %d scripted replays, %d script mismatches\n", prop, n, scripted, scriptBad)
		bad += scriptBad
	}
	if bad > 0 {
		fatalf("%d mismatches", bad)
	}
}
