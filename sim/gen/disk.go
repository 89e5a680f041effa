package gen

import "verifsim/plan"

type diskOpt struct {
	crash    int // percent of epochs that crash
	epochs   int
	clients  int
	faults   int
	pressure int
	foreign  int
	sleepy   int
	pre      int
	early    int // closed while in use
	kinds    []string
}

var storeKinds = []string{"create", "write", "write", "fsync", "fsync", "fsyncdir", "fsyncdir", "close", "rename", "rename", "fstat"}
var loadKinds = []string{"open", "read", "fstat"}
var openKinds = []string{"opendir", "getdents", "getdents", "stat", "stat", "fstat", "close"}

func diskGen(o diskOpt) func(r *R, p *plan.Plan, thorough bool) {
	return func(r *R, p *plan.Plan, thorough bool) {
		d := &plan.Disk{Keys: r.In(1, 4), Compress: r.P(30), Foreign: r.P(o.foreign), Opts: Pick(r, 0, 0, 0, 0, 1, 2)}
		if r.P(60) {
			d.LatUs = r.LogUs(20000)
		}
		if r.P(15) {
			d.ShortIO = r.In(1, 64)
			d.LatUs = min(d.LatUs, 3*d.ShortIO)
		}
		if r.P(15) {
			d.EINTR = Pick(r, 10, 50, 200)
		}
		if r.P(20) {
			d.Keys = r.In(5, 8)
		}
		many := r.P(5)
		if many {
			d.Keys = r.In(9, 40)
		}
		press := r.P(o.pressure)
		if press {
			d.SweepS = Pick(r, int64(1), 2, 10, 60, 0, 300)
			if r.P(70) {
				d.Maxage = Pick(r, int64(1), 5, 30, 120, 600, 3600, 0, -1)
			}
			if r.P(60) {
				d.Maxsize = Pick(r, int64(1), 4, 10, 64, 100, 300, 1000, 5000, -1, 0)
			}
		} else {
			switch r.N(4) {
			case 0:
				d.Maxage = -1
			case 1:
				d.Maxsize = -1
			case 2:
				d.SweepS = Pick(r, int64(-1), 1, 5)
			}
		}
		if press && r.P(35) {
			d.SweepUs = Pick(r, int64(500), 500, 2000, 10000, 50000, 200000)
			if d.SweepUs < 10000 {
				d.LatUs = min(d.LatUs, 2000)
				d.ShortIO = 0
			}
			d.Maxage = Pick(r, int64(1), 1, 2, 0, -1)
			if r.P(80) {
				d.Maxsize = Pick(r, int64(4), 10, 64, 100, 300)
			}
		}
		size := func() int {
			switch r.N(10) {
			case 0:
				return r.N(3)
			case 1:
				return r.In(1000, 5000)
			case 2:
				return Pick(r, 512, 4096, 511, 513)
			case 3:
				if d.ShortIO == 0 && r.P(10) {
					return Pick(r, 32768, 65536, 65537, 200000)
				}
			}
			if d.Maxsize > 1 && d.Maxsize < 2000 && r.P(60) {
				return 2 + r.N(int(d.Maxsize))
			}
			return 2 + r.N(100)
		}
		sleepMs := func() int64 {
			if d.SweepUs > 0 {
				if d.SweepUs < 10000 {
					return int64(r.N(10))
				}
				return int64(r.N(5000))
			}
			if press && r.P(70) {
				s := d.SweepS
				if s == 0 {
					s = 300
				}
				a := d.Maxage
				if a <= 0 || r.P(50) {
					a = s
				}
				return int64(r.N(int(Pick(r, s, 3*s, a+s, 2*a+3*s)*1000) + 2))
			}
			return int64(r.LogUs(10000))
		}
		if r.P(o.pre) {
			for n := r.In(1, 6); n > 0; n-- {
				age := Pick(r, int64(0), 1, 60, 3600, 100000, int64(r.N(90000)))
				if d.Maxage > 0 {
					age = Pick(r, 0, d.Maxage, d.Maxage-1, d.Maxage+1, 2*d.Maxage, int64(r.N(int(d.Maxage)+1)))
				}
				d.Pre = append(d.Pre, plan.PreFile{Key: r.N(8), Size: size(), AgeS: age})
				if r.P(70) {
					d.Pre[len(d.Pre)-1].Key %= d.Keys
				}
			}
			if many {
				for _, k := range r.Perm(d.Keys)[:r.In(6, d.Keys)] {
					d.Pre = append(d.Pre, plan.PreFile{Key: k, Size: size(), AgeS: int64(r.N(3000))})
				}
			}
			if r.P(15) {
				for n := r.In(3, 20); n > 0; n-- {
					d.Pre = append(d.Pre, plan.PreFile{Name: "x" + string(rune('a'+n)), Size: 10})
				}
			}
		}
		kinds := o.kinds
		if kinds == nil {
			kinds = append(append(append([]string(nil), storeKinds...), loadKinds...), "unlink")
		}
		faulty := r.P(o.faults)
		for n := r.In(1, o.epochs); n > 0; n-- {
			ep := plan.Epoch{WaitWarm: r.P(75), Torn: r.U() >> 12}
			for c := r.In(1, o.clients); c > 0; c-- {
				var ops []plan.DOp
				hot := r.N(d.Keys)
				for k := r.In(2, 9); k > 0; k-- {
					x := plan.DOp{Op: "store", Key: r.N(d.Keys), Size: size()}
					if r.P(50) {
						x.Key = hot
					}
					if r.P(45) {
						x.Op = "load"
					}
					if r.P(o.sleepy) {
						ops = append(ops, plan.DOp{Op: "sleep", SleepMs: sleepMs()})
					}
					if r.P(3) {
						x.Op = "wait"
					}
					if press && r.P(15) {
						ops = append(ops, plan.DOp{Op: "tick", SleepMs: int64(r.LogUs(5000))})
						if r.P(50) {
							ops[len(ops)-1].SleepMs *= -1
						}
					}
					ops = append(ops, x)
				}
				if r.P(o.sleepy) {
					ops = append(ops, plan.DOp{Op: "sleep", SleepMs: sleepMs()}, plan.DOp{Op: "load", Key: r.N(d.Keys)})
				}
				ep.Clients = append(ep.Clients, ops)
			}
			if r.P(o.crash) {
				ep.CrashAt = Pick(r, -1, r.In(1, 12), r.In(1, 40), r.In(5, 80), r.In(1, 150))
				d.Crashy = true
			}
			if faulty && r.P(80) {
				for k := r.In(1, 3); k > 0; k-- {
					x := plan.SysFault{Call: Pick(r, kinds...), Nth: Pick(r, 1, 2, 3, r.In(1, 10), r.In(1, 30)), Err: Pick(r, "EIO", "EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "ESTALE")}
					x.Count = Pick(r, 0, 0, 0, 1, 2, 5, -1)
					if x.Call == "write" && r.P(50) {
						x.Short = 1 + r.N(998)
						x.Err = "ENOSPC"
					}
					if x.Call == "unlink" && r.P(50) {
						x.Name = Pick(r, "7", "7", "0", "18446744073709551615", "70")
						x.Nth, x.Count = 1, Pick(r, 1, 3, -1, -1)
					}
					ep.Faults = append(ep.Faults, x)
				}
			}
			if r.P(o.early) && ep.CrashAt == 0 {
				ep.CloseUs = int64(1 + r.LogUs(100000))
				if d.SweepUs > 0 {
					if r.P(30) {
						ep.CloseUs = 3*d.SweepUs + int64(r.N(200)) - 100
					}
				} else if r.P(30) && d.SweepS > 0 {
					ep.CloseUs = d.SweepS*1000000 + int64(r.N(20000)) - 10000
				}
			}
			if r.P(10) {
				ep.CancelUs = int64(1 + r.LogUs(20000))
			}
			d.Epochs = append(d.Epochs, ep)
		}
		if o.early > 0 && r.P(4) {
			d.Epochs = append(d.Epochs, plan.Epoch{Dir: Pick(r, "missing", "file", "relative")})
		}
		if press && r.P(12) {
			d.WallJump = append(d.WallJump, plan.Jump{AtMs: int64(r.N(60000)), ByS: Pick(r, int64(-30), 30, 3600, -3600)})
		}
		p.Disk = d
	}
}

func init() {
	real := []string{"antcache.Diskstore: store, load, warm-up, sweeper (instrumented)", "os, internal/poll, snappy"}
	stub := []string{"the file system and its crashes, below the system call layer", "clock", "the callers"}
	reg := func(prop string, quick int, nostall bool, o diskOpt) {
		register(&Gen{Prop: prop, World: "disk", Quick: quick, NoStall: nostall, Make: diskGen(o), Rule: "at least five store or load calls", Real: real, Stub: stub,
			Assume: append([]string{"a completed fsync of a file makes its content durable, a completed fsync of the directory the entries present when it began; rename replaces an entry atomically; anything else may be lost, torn or reordered by a crash"}, smallAssume...)})
	}
	reg("C30", 5000, false, diskOpt{crash: 75, epochs: 4, clients: 3, faults: 20, pressure: 15, foreign: 15, sleepy: 15, pre: 30})
	reg("C31", 5000, false, diskOpt{crash: 0, epochs: 2, clients: 4, faults: 45, pressure: 35, foreign: 10, sleepy: 15, pre: 30, early: 8})
	reg("C32", 5000, true, diskOpt{crash: 8, epochs: 3, clients: 3, faults: 20, pressure: 100, foreign: 15, sleepy: 60, pre: 50, kinds: []string{"unlink", "unlink", "fsyncdir", "rename", "write", "close"}})
	reg("C33", 5000, false, diskOpt{crash: 15, epochs: 3, clients: 2, faults: 75, pressure: 30, foreign: 50, sleepy: 15, pre: 70, early: 35, kinds: append(append(append([]string(nil), openKinds...), openKinds...), storeKinds...)})
}
