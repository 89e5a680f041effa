package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/golang/snappy"
	"github.com/yields/ant/antcache"
	"verifsim/plan"
)

func init() { worlds["disk"] = diskWorld }

var diskKeys = func() []uint64 {
	k := []uint64{7, 0, 18446744073709551615, 70, 1 << 63, 12345678901234567890, 9, 1}
	for i := uint64(0); len(k) < 40; i++ {
		k = append(k, mix(i)>>(i%50))
	}
	return k
}()

// dop is a call to the store.
type dop struct {
	key        int
	store      bool
	val        string // value stored or loaded
	none       bool   // nothing loaded
	err        error
	pending    bool
	start, end int
	st, et     time.Duration
	pre        bool // began before warm-up was known to be complete
	age        time.Duration
	fail       bool // an unacknowledged store
}

func (o *dop) String() string {
	k := "load"
	if o.store {
		k = "store"
	}
	s := fmt.Sprintf("[%d,%d] %s key %d", o.start, o.end, k, diskKeys[o.key])
	switch {
	case o.store && o.pending:
		s += " " + valName(o.val) + " (pending)"
	case o.err != nil && o.store:
		s += fmt.Sprintf(" %s failed: %v", valName(o.val), o.err)
	case o.err != nil:
		s += fmt.Sprintf(" failed: %v", o.err)
	case o.none:
		s += " = nothing"
	case o.store:
		s += " " + valName(o.val)
	default:
		s += " = " + valName(o.val)
	}
	return s
}

func valName(v string) string {
	if len(v) < 2 {
		return fmt.Sprintf("%q", v)
	}
	return fmt.Sprintf("value %d (%d bytes)", int(v[0])|int(v[1])<<8, len(v))
}

// diskVal is the id-th stored value: unique from two bytes on.
func diskVal(id, size int) string {
	b := make([]byte, size)
	r := mix(uint64(id), uint64(size))
	for i := range b {
		if id%2 == 0 || i%64 == 0 {
			r = mix(r, 1)
		}
		b[i] = byte(r >> 20)
	}
	if size > 0 {
		b[0] = byte(id)
	}
	if size > 1 {
		b[1] = byte(id >> 8)
	}
	return string(b)
}

type diskRun struct {
	e       *Env
	p       *plan.Disk
	fs      *simfs
	ds      *antcache.Diskstore
	maxage  time.Duration
	maxsize int64
	sweep   time.Duration // 0: off
	ids     int
	ops     []*dop          // of this epoch
	cands   map[int][]*dop  // stores of earlier epochs that may be in place
	vals    map[string]bool // every value ever stored, with its key
	warm    bool
	warmAt  time.Duration
	opened  time.Duration
	closed  bool // Close was called
	closing time.Duration
	base    map[string]bool // names that are not entries
	leftOK  bool            // leftovers are explained
	jump    time.Duration   // sum of forward jumps
	jumps   []time.Duration
	nops    int
	foreign map[string]bool
	big     map[int]int // largest value ever stored
	sure    bool        // what is in place at the start of the epoch is durable
}

func isEntry(name string) bool {
	n, err := strconv.ParseUint(name, 10, 64)
	return err == nil && strconv.FormatUint(n, 10) == name
}

func (r *diskRun) encode(v string) []byte {
	if r.p.Compress {
		return snappy.Encode(nil, []byte(v))
	}
	return []byte(v)
}

func (r *diskRun) addFile(name string, data []byte, age time.Duration) {
	n := r.fs.newInode(false)
	n.data, n.durable, n.synced = data, data, true
	n.mtime = wallNow().Add(-age)
	r.fs.root.ents[name], r.fs.root.dents[name] = n, n
}

func (r *diskRun) options() []antcache.DiskOption {
	p := r.p
	var o []antcache.DiskOption
	if p.Maxage != 0 {
		o = append(o, antcache.Maxage(time.Duration(p.Maxage)*time.Second))
	}
	if p.Maxsize != 0 {
		o = append(o, antcache.Maxsize(p.Maxsize))
	}
	if p.SweepUs > 0 {
		o = append(o, antcache.SweepEvery(us(int(p.SweepUs))))
	} else if p.SweepS != 0 {
		o = append(o, antcache.SweepEvery(time.Duration(p.SweepS)*time.Second))
	}
	if p.Compress {
		o = append(o, antcache.Compress())
	}
	switch p.Opts {
	case 1: // the last one wins
		o = append([]antcache.DiskOption{antcache.SweepEvery(0), antcache.Maxage(time.Second), antcache.Maxsize(1)}, o...)
		if p.Maxage == 0 {
			o = append(o, antcache.Maxage(24*time.Hour))
		}
		if p.Maxsize == 0 {
			o = append(o, antcache.Maxsize(1<<30))
		}
		if p.SweepS == 0 && p.SweepUs == 0 {
			o = append(o, antcache.SweepEvery(5*time.Minute))
		}
	case 2:
		o = append(o, antcache.Debug(func(f string, a ...any) { _ = fmt.Sprintf(f, a...) }))
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
	}
	return o
}

// run waits for f, the crash or the bound.
func (r *diskRun) run(d time.Duration, f func()) string {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		if r.fs.dead[r.fs.epoch] {
			return "crash"
		}
		return "done"
	case <-r.fs.crash:
		return "crash"
	case <-t.C:
		select {
		case <-done:
			return "done"
		default:
		}
		r.e.stack = allStacks()
		return "timeout"
	}
}

func (r *diskRun) do(op plan.DOp, ep int) {
	e := r.e
	if r.fs.dead[ep] {
		select {}
	}
	o := &dop{key: op.Key % len(diskKeys), store: op.Op == "store", st: e.Now(), pre: !r.warm, pending: true}
	key := diskKeys[o.key]
	r.nops++
	if o.store {
		r.ids++
		o.val = diskVal(r.ids, op.Size)
		r.vals[fmt.Sprint(o.key, ":", o.val)] = true
		r.big[o.key] = max(r.big[o.key], len(o.val))
		buf := []byte(o.val)
		r.ops = append(r.ops, o)
		o.start = e.Logf("store %d %s", key, valName(o.val))
		err := r.ds.Store(context.Background(), key, buf)
		if r.fs.dead[ep] {
			select {}
		}
		o.end = e.Logf("store %d %s done: %v", key, valName(o.val), err)
		o.et, o.err, o.pending = e.Now(), err, false
		for i := range buf { // the caller owns its buffer
			buf[i] ^= 0xff
		}
		if err != nil {
			o.fail = true
			if !r.fs.faultIn(o.st) && !r.closed {
				e.V("store error", "Store of key %d failed without any injected fault: %v", key, err)
			}
		} else if len(r.fs.fired) > 0 {
			e.Probe("store acknowledged after faults")
		}
		return
	}
	r.ops = append(r.ops, o)
	o.start = e.Logf("load %d", key)
	b, err := r.ds.Load(context.Background(), key)
	if r.fs.dead[ep] {
		select {}
	}
	o.et, o.err, o.pending = e.Now(), err, false
	o.val, o.none = string(b), b == nil
	o.end = e.Logf("load %d done: %s none %v %v", key, valName(o.val), b == nil, err)
	if err != nil {
		if !r.fs.faultIn(o.st) {
			e.V("load error", "Load of key %d failed without any injected fault: %v", key, err)
		} else {
			e.Probe("load failed by a fault")
		}
		return
	}
	for i := range b {
		b[i] ^= 0xff
	}
	if len(b) > 0 && !r.vals[fmt.Sprint(o.key, ":", o.val)] {
		e.V("foreign or torn value", "Load of key %d returned %d bytes that were never stored under it: %.60q", key, len(o.val), o.val)
	}
}

func (r *diskRun) client(ops []plan.DOp, ep int) {
	for _, op := range ops {
		switch op.Op {
		case "sleep":
			time.Sleep(time.Duration(op.SleepMs) * time.Millisecond)
			if r.fs.dead[ep] {
				select {}
			}
			if r.e.Is("C32") {
				r.checkpoint()
			}
		case "tick":
			if r.sweep > 0 {
				now := r.e.Now() - r.opened
				at := (now/r.sweep + 1) * r.sweep
				time.Sleep(at - now + time.Duration(op.SleepMs)*time.Microsecond)
				if r.fs.dead[ep] {
					select {}
				}
			}
		case "wait":
			r.wait(0, ep)
		default:
			r.do(op, ep)
		}
	}
}

func (r *diskRun) wait(cancelUs int64, ep int) {
	e := r.e
	if r.fs.dead[ep] || r.ds == nil || r.fs.epoch != ep {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	canceled := false
	if cancelUs > 0 {
		t := time.AfterFunc(us(int(cancelUs)), func() {
			canceled = true
			e.Fault("wait cancelled")
			cancel()
		})
		defer t.Stop()
	}
	err := r.ds.Wait(ctx)
	if r.fs.dead[ep] {
		select {}
	}
	e.Logf("wait: %v", err)
	if err == nil {
		if !r.warm {
			r.warm, r.warmAt = true, e.Now()
		}
	} else if !canceled {
		e.V("wait error", "Wait returned %v although its context had not ended", err)
	}
}

// slack is how late background work may be.
const diskSlack = 2 * time.Second

// droppable reports whether a value may have been swept by the end of an
// operation; an upper bound.
func (r *diskRun) droppable(s *dop, at *dop) bool {
	if r.sweep == 0 {
		return false
	}
	if r.maxage > 0 && at.et-s.st+s.age+r.jump > r.maxage {
		return true
	}
	if r.maxsize <= 0 {
		return false
	}
	sum := int64(len(s.val) + len(s.val)/6 + 40)
	for k, n := range r.big {
		if k != s.key {
			sum += int64(n + n/6 + 40)
		}
	}
	return sum > r.maxsize
}

// judge checks the history of every key of this epoch.
func (r *diskRun) judge(crashed bool) {
	e := r.e
	for k := range diskKeys {
		var hist []*dop
		for _, o := range r.ops {
			if o.key == k && (o.store || o.err == nil && !o.pending) {
				hist = append(hist, o)
			}
		}
		if len(hist) > 0 {
			r.register(k, hist)
		}
		// What may be in place from now on.
		var base []*dop
		observed := false
		for _, o := range hist {
			if o.store || o.none || observed || !r.sure {
				continue
			}
			for _, c := range r.cands[k] {
				if c.val == o.val {
					// In place since the start: durable.
					n := *c
					n.fail, n.pending = false, false
					n.end = 0
					base, observed = []*dop{&n}, true
				}
			}
		}
		if !observed {
			base = r.cands[k]
		}
		all := append([]*dop(nil), base...)
		for _, o := range hist {
			if o.store {
				c := *o
				all = append(all, &c)
			}
		}
		var keep []*dop
		for _, c := range all {
			dead := false
			for _, t := range all {
				if t != c && !t.fail && !t.pending && c.end != 0 && t.start > c.end {
					dead = true
				}
				if t != c && !t.fail && !t.pending && c.end == 0 && !c.pending && t.start > 0 && t.end > 0 {
					dead = true // stored in an earlier epoch
				}
			}
			if !dead {
				keep = append(keep, c)
			}
		}
		for _, c := range keep {
			if c.pending {
				c.fail, c.pending = true, false
			}
			c.start, c.end = 0, 0 // before everything to come
		}
		r.cands[k] = keep
		if crashed && len(keep) > 0 {
			e.Probe("key judged across a crash")
		}
	}
	r.ops = nil
}

// register searches for an order of the operations of one key in which it is
// a register whose value may be swept.
func (r *diskRun) register(k int, hist []*dop) {
	if raceMode {
		return
	}
	e := r.e
	for _, o := range hist {
		if o.pending {
			o.end = 1 << 60
		}
	}
	warmFault := r.fs.faultIn(0, "getdents", "opendir", "fstat") || r.fs.faultOn(0, strconv.FormatUint(diskKeys[k], 10), "stat")
	type state struct {
		cur  *dop
		disk bool // as found at start-up
	}
	var inits []state
	noneOK := true
	for _, c := range r.cands[k] {
		inits = append(inits, state{c, true})
		if !c.fail {
			noneOK = false
		}
	}
	if noneOK || warmFault {
		inits = append(inits, state{nil, true})
	}
	if len(hist) > 60 {
		hist = hist[:60]
	}
	seen := map[string]bool{}
	var rec func(done uint64, s state) bool
	rec = func(done uint64, s state) bool {
		if done == 1<<uint(len(hist))-1 {
			return true
		}
		key := fmt.Sprint(done, s.disk)
		if s.cur != nil {
			key += fmt.Sprintf("%p", s.cur)
		}
		if seen[key] {
			return false
		}
		seen[key] = true
		min := 1 << 61
		for i, o := range hist {
			if done>>uint(i)&1 == 0 && o.end < min {
				min = o.end
			}
		}
		for i, o := range hist {
			if done>>uint(i)&1 == 1 || o.start > min {
				continue
			}
			d := done | 1<<uint(i)
			switch {
			case o.store:
				if rec(d, state{o, false}) {
					return true
				}
				if (o.fail || o.pending) && rec(d, s) {
					return true
				}
			case o.none || o.val == "":
				if s.cur == nil || o.val == s.cur.val {
					if rec(d, s) {
						return true
					}
					continue
				}
				if s.disk && o.pre && rec(d, s) { // not found yet
					return true
				}
				if s.disk && warmFault && rec(d, state{nil, false}) {
					return true
				}
				if r.droppable(s.cur, o) && rec(d, state{nil, false}) {
					return true
				}
			default:
				if s.cur != nil && s.cur.val == o.val && rec(d, s) {
					return true
				}
			}
		}
		return false
	}
	for _, s := range inits {
		if rec(0, s) {
			return
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "key %d: no order of the operations explains the history\n", diskKeys[k])
	for _, c := range r.cands[k] {
		fmt.Fprintf(&b, "  from before: %s acknowledged=%v\n", valName(c.val), !c.fail)
	}
	for _, o := range hist {
		fmt.Fprintf(&b, "  %s\n", o)
	}
	class := "history"
	for _, o := range hist {
		if o.none {
			class = "value lost"
		}
	}
	e.V(class, "%s", b.String())
}

// judgeUnlinks checks that entries are only removed when they have to be.
func (r *diskRun) judgeUnlinks() {
	e := r.e
	f := r.fs
	si := 0
	for _, u := range f.unlinks {
		if !isEntry(u.name) || u.info.dir {
			if r.foreign[u.name] {
				e.only("C32 C33", "foreign file removed", "the store removed %q, which is not its own", u.name)
			}
			continue
		}
		if r.sweep == 0 {
			e.only("C32", "removed without sweeping", "entry %s was removed although sweeping is off", u.name)
			continue
		}
		for si < len(f.snaps) && f.snaps[si].at < u.at-diskSlack {
			si++
		}
		lo := si
		if lo > 0 {
			lo--
		}
		if r.jumped(u.at-diskSlack, u.at) {
			continue
		}
		age := u.wall.Sub(u.info.mtime)
		if r.maxage > 0 && age > r.maxage {
			e.Probe("expired entry removed")
			continue
		}
		why := ""
		ok := false
		for i := lo; i < len(f.snaps) && f.snaps[i].at <= u.at && !ok; i++ {
			s := f.snaps[i].ents
			x, in := s[u.name]
			if !in || x.ino != u.info.ino {
				continue
			}
			sum := x.size
			for name, y := range s {
				if name != u.name && isEntry(name) && !y.dir && !y.mtime.Before(x.mtime) {
					sum += y.size
				}
			}
			if r.maxsize > 0 && sum > r.maxsize {
				ok = true
			}
			why = fmt.Sprintf("it and the entries as new have %d bytes", sum)
		}
		if ok {
			e.Probe("entry removed for size")
			r.oldestFirst(u)
			continue
		}
		e.only("C32", "wrongly removed", "entry %s (%d bytes, age %v) was removed at %v: maximum age %v, maximum size %d, %s", u.name, u.info.size, age, u.at, r.maxage, r.maxsize, why)
	}
	f.unlinks = nil
}

// oldestFirst checks that no older entry outlives one removed for its size.
func (r *diskRun) oldestFirst(u unlinkRec) {
	f := r.fs
	if r.closed && r.closing < u.at+diskSlack || f.dead[f.epoch] || f.faultIn(0, "unlink", "stat", "getdents") {
		return
	}
	var before, after map[string]entInfo
	for _, s := range f.snaps {
		if s.at < u.at {
			before = s.ents
		}
		if s.at <= u.at+diskSlack {
			after = s.ents
		}
	}
	for _, s := range f.snaps {
		if s.at < u.at-diskSlack || s.at > u.at+diskSlack {
			continue
		}
		for name, y := range s.ents {
			if x, ok := before[name]; s.at >= u.at && (!ok || x.ino != y.ino) {
				return // stores at the same time
			}
		}
		for name, x := range before {
			if y, ok := s.ents[name]; s.at < u.at && (!ok || x.ino != y.ino) {
				return
			}
		}
	}
	for name, x := range before {
		y, kept := after[name]
		if kept && y.ino == x.ino && isEntry(name) && !x.dir && x.mtime.Before(u.info.mtime) && name != u.name {
			r.e.only("C32", "newer removed first", "entry %s of %v was removed for its size while %s, older by %v, was kept", u.name, u.info.mtime.Sub(time.Unix(0, startNano)), name, u.info.mtime.Sub(x.mtime))
		}
	}
}

func (r *diskRun) jumped(from, to time.Duration) bool {
	for _, j := range r.jumps {
		if j >= from && j <= to {
			return true
		}
	}
	return false
}

// checkpoint checks that what had to be swept was swept.
func (r *diskRun) checkpoint() {
	e := r.e
	if r.sweep == 0 || !r.warm || r.closed || r.ds == nil {
		return
	}
	now := e.Now()
	span := 2*r.sweep + diskSlack
	if now-r.warmAt < span || r.fs.faultIn(r.opened, "getdents", "opendir", "fstat") || r.jumped(now-span, now) {
		return
	}
	e.Probe("sweeping checked")
	last := r.fs.snaps[len(r.fs.snaps)-1]
	wall := wallNow()
	var sum int64
	for name, x := range last.ents {
		if !isEntry(name) || x.dir || r.fs.faultOn(r.opened, name, "stat") {
			continue
		}
		if age := wall.Sub(x.mtime); r.maxage > 0 && age-span > r.maxage && !r.fs.faultOn(now-span, name, "unlink") {
			e.V("expired entry kept", "entry %s has age %v, maximum %v, and is swept every %v", name, age, r.maxage, r.sweep)
		}
		sum += x.size
	}
	if r.maxsize > 0 && sum > r.maxsize && now-last.at > span && !r.fs.faultIn(now-span, "unlink") {
		e.V("size exceeded", "entries have %d bytes, maximum %d, and were swept every %v since the last change %v ago", sum, r.maxsize, r.sweep, now-last.at)
	}
}

func (r *diskRun) epoch(i int, ep *plan.Epoch, final bool) {
	e, f, p := r.e, r.fs, r.p
	path := f.mount(ep)
	id := f.epoch
	switch ep.Dir {
	case "missing":
		path = "/simfs/" + itoa(f.epoch) + "/other"
	case "file":
		path = "/simfs/" + itoa(f.epoch) + "/file"
	case "relative":
		path = "cache"
	}
	e.Logf("epoch %d %s", f.epoch, path)
	r.warm, r.closed, r.ds = false, false, nil
	r.base = map[string]bool{}
	for name := range f.root.ents {
		if !isEntry(name) {
			r.base[name] = true
		}
	}
	r.opened = e.Now()
	r.sure = id == 1 || f.dead[id-1]
	bound := 10 * time.Second
	var err error
	res := r.run(bound, func() {
		ds, e1 := antcache.Open(path, r.options()...)
		if !f.dead[id] {
			r.ds, err = ds, e1
		}
	})
	switch {
	case res == "crash":
		r.judge(true)
		return
	case res == "timeout":
		e.V("hang", "Open does not return within %v", bound)
		return
	}
	e.Logf("opened %v", err)
	if ep.Dir != "" {
		if err == nil {
			e.only("C33", "open", "Open of a %s directory succeeded", ep.Dir)
		} else {
			r.released("a failed Open")
		}
		return
	}
	if err != nil {
		if !f.faultIn(r.opened, "opendir", "fstat", "stat", "open") {
			e.only("C30 C33", "open failed", "Open failed without any injected fault: %v", err)
		}
		e.Probe("open failed")
		r.released("a failed Open")
		return
	}
	if ep.CancelUs > 0 {
		go r.wait(ep.CancelUs, id)
	}
	if ep.WaitWarm || final {
		switch r.run(bound, func() { r.wait(0, id) }) {
		case "crash":
			r.judge(true)
			return
		case "timeout":
			e.V("hang", "Wait does not return within %v", bound)
			return
		}
		res := r.run(bound, func() {
			for k := 0; k < p.Keys; k++ {
				r.do(plan.DOp{Op: "load", Key: k}, id)
			}
		})
		if res == "crash" {
			r.judge(true)
			return
		}
		if res == "timeout" {
			e.V("hang", "loads do not return")
			return
		}
	}
	total := time.Minute
	var wg sync.WaitGroup
	for _, ops := range ep.Clients {
		var t time.Duration
		for _, o := range ops {
			t += time.Duration(o.SleepMs)*time.Millisecond + time.Second
			if o.Op == "tick" {
				t += r.sweep
			}
		}
		if t+time.Minute > total {
			total = t + time.Minute
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.client(ops, id)
		}()
	}
	if ep.CloseUs > 0 {
		switch r.run(us(int(ep.CloseUs))+bound, func() {
			time.Sleep(us(int(ep.CloseUs)))
			r.close(id)
		}) {
		case "crash":
			r.judge(true)
			return
		case "timeout":
			e.V("hang", "Close does not return within %v", bound)
			return
		}
		e.Fault("closed while in use")
	}
	switch r.run(total, wg.Wait) {
	case "crash":
		r.judge(true)
		r.judgeUnlinks()
		return
	case "timeout":
		e.V("hang", "store operations do not return")
		return
	}
	if ep.CrashAt < 0 {
		f.doCrash()
		r.judge(true)
		r.judgeUnlinks()
		return
	}
	if e.Is("C32") {
		r.checkpoint()
	}
	if ep.CloseUs == 0 {
		switch r.run(bound, func() { r.close(id) }) {
		case "crash":
			r.judge(true)
			r.judgeUnlinks()
			return
		case "timeout":
			e.V("hang", "Close does not return within %v", bound)
			return
		}
	}
	r.judge(false)
	r.judgeUnlinks()
	r.released("Close")
	calls := 0
	f.onCall = func(name, path string) {
		calls++
		e.only("C33", "work after close", "%s of %s after Close returned and every call ended", name, path)
	}
	d := time.Second
	if r.sweep > 0 {
		d = 2*r.sweep + time.Second
	}
	time.Sleep(d)
	f.onCall = nil
	if !r.leftOK && !f.faultIn(0, "unlink") {
		for name := range f.root.ents {
			if !isEntry(name) && !r.base[name] {
				e.only("C33", "temporary file left", "%q is left in the directory after every call returned", name)
			}
		}
	}
}

func (r *diskRun) close(ep int) {
	e := r.e
	if r.fs.dead[ep] {
		select {}
	}
	r.closed = true
	r.closing = e.Now()
	err := r.ds.Close()
	if r.fs.dead[ep] {
		select {}
	}
	e.Logf("close: %v", err)
	if err != nil && !r.fs.faultIn(r.closing, "close") {
		e.V("close failed", "Close failed without any injected fault: %v", err)
	}
	time.Sleep(200 * time.Millisecond)
	// Background work has stopped, whoever else still uses the store.
	for _, g := range antStacks() {
		if len(r.fs.dead) == 0 && !strings.Contains(g, "main.(*diskRun)") {
			e.only("C33", "goroutine left", "Close returned and a goroutine remains\n%s", g)
		}
	}
}

func (r *diskRun) released(after string) {
	if s := r.fs.openFds(); len(s) > 0 {
		r.e.only("C33", "descriptor leak", "descriptors are open after %s: %s", after, strings.Join(s, " "))
	}
	if len(r.fs.dead) == 0 {
		if s := antStacks(); len(s) > 0 {
			r.e.only("C33", "goroutine left", "a goroutine remains after %s\n%s", after, s[0])
		}
	}
}

func diskWorld(e *Env) {
	log.SetOutput(io.Discard)
	p := e.P.Disk
	r := &diskRun{e: e, p: p, fs: newSimfs(e), cands: map[int][]*dop{}, vals: map[string]bool{}, foreign: map[string]bool{}, big: map[int]int{}}
	f := r.fs
	f.lat, f.short, f.eintr = p.LatUs, p.ShortIO, p.EINTR
	r.maxage, r.maxsize, r.sweep = 24*time.Hour, 1<<30, 5*time.Minute
	if p.Maxage != 0 {
		r.maxage = time.Duration(p.Maxage) * time.Second
	}
	if p.Maxsize != 0 {
		r.maxsize = p.Maxsize
	}
	if p.SweepS != 0 {
		r.sweep = time.Duration(p.SweepS) * time.Second
	}
	if r.sweep < 0 {
		r.sweep = 0
	}
	if p.SweepUs > 0 {
		r.sweep = us(int(p.SweepUs))
	}
	if p.Foreign {
		for i, name := range []string{"README", "007", "12x", ".hidden", "-3", "99999999999999999999999", "00", "1_0", "old.tmp", "+9"} {
			if mix(e.P.Seed, uint64(i))%3 > 0 {
				r.addFile(name, []byte("foreign "+name), time.Duration(i)*time.Hour)
				r.foreign[name] = true
			}
		}
		if mix(e.P.Seed, 99)%2 == 0 {
			d := f.newInode(true)
			f.root.ents["4242"], f.root.dents["4242"] = d, d
			d.mtime = time.Unix(0, 0)
			r.foreign["4242"] = true
		}
	}
	for _, x := range p.Pre {
		if x.Name != "" {
			r.addFile(x.Name, []byte(diskVal(999, x.Size)), time.Duration(x.AgeS)*time.Second)
			r.foreign[x.Name] = true
			continue
		}
		k := x.Key % len(diskKeys)
		name := strconv.FormatUint(diskKeys[k], 10)
		if f.root.ents[name] != nil {
			continue
		}
		r.ids++
		v := diskVal(r.ids, x.Size)
		r.vals[fmt.Sprint(k, ":", v)] = true
		r.big[k] = max(r.big[k], len(v))
		r.addFile(name, r.encode(v), time.Duration(x.AgeS)*time.Second)
		r.cands[k] = []*dop{{key: k, store: true, val: v, age: time.Duration(x.AgeS) * time.Second}}
	}
	f.snap()
	syscall.Sim = f
	for _, j := range p.WallJump {
		time.AfterFunc(time.Duration(j.AtMs)*time.Millisecond, func() {
			e.Fault("wall clock jump")
			r.jumps = append(r.jumps, e.Now())
			if j.ByS > 0 {
				r.jump += time.Duration(j.ByS) * time.Second
			}
			runtime.SimWallJump(j.ByS * 1e9)
		})
	}
	for i := range p.Epochs {
		r.epoch(i, &p.Epochs[i], false)
		if f.dead[f.epoch] {
			r.leftOK = true
		}
	}
	// A last life without faults: what is there must be readable.
	f.noFlt = true
	if !raceMode {
		r.epoch(len(p.Epochs), &plan.Epoch{WaitWarm: true}, true)
	}
	e.nontriv = r.nops >= 5
}

// only records a violation of the listed properties.
func (e *Env) only(props, class, f string, a ...any) {
	if strings.Contains(props, e.P.Prop) {
		e.V(class, f, a...)
	}
}
