// Package gen generates plans from seeds.
package gen

import (
	"sort"

	"verifsim/plan"
)

// Mix derives a number.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x2545f4914f6cdd1d)
	for _, v := range vs {
		h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

// StrHash hashes a string.
func StrHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// R is a small deterministic generator.
type R struct{ s uint64 }

// NewR returns a generator.
func NewR(seed uint64) *R { return &R{seed} }

// U returns the next number.
func (r *R) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U()>>11) % n
}

// In returns a number in [a,b].
func (r *R) In(a, b int) int { return a + r.N(b-a+1) }

// Perm returns a permutation of [0,n).
func (r *R) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// P is true with probability p percent.
func (r *R) P(p int) bool { return r.N(100) < p }

// Pick returns one of the values.
func Pick[T any](r *R, v ...T) T { return v[r.N(len(v))] }

// LogUs returns a log-uniform duration in microseconds up to max.
func (r *R) LogUs(max int) int {
	if max <= 0 || r.P(15) {
		return 0
	}
	bits := 0
	for max>>bits > 0 {
		bits++
	}
	b := r.N(bits)
	v := 1<<b + r.N(1<<b)
	if v > max {
		v = max
	}
	return v
}

// Gen generates the plans of one property.
type Gen struct {
	Prop    string
	World   string
	Quick   int // number of runs of the quick check
	Race    bool
	NoStall bool // timing oracle: no stalls of running code
	Make    func(r *R, p *plan.Plan, thorough bool)
	Rule    string
	Real    []string
	Stub    []string
	Assume  []string
}

var gens = map[string]*Gen{}

func register(g *Gen) { gens[g.Prop] = g }

// Get returns the generator of a property.
func Get(prop string) *Gen { return gens[prop] }

// Props lists the properties.
func Props() []string {
	var ret []string
	for k := range gens {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

// Make generates the plan of one run.
func Make(prop string, seed uint64, tier string, i int) *plan.Plan {
	g := gens[prop]
	r := NewR(Mix(seed, 1))
	p := &plan.Plan{Prop: prop, World: g.World, Seed: seed >> 12}
	p.Sched = sched(NewR(Mix(seed, 2)), g.NoStall)
	g.Make(r, p, tier == "thorough")
	return p
}

func sched(r *R, nostall bool) plan.Sched {
	s := plan.Sched{Seed: r.U() >> 12}
	switch k := r.N(20); {
	case k == 0:
		s.Fifo = true
	case k < 5: // uniform choice, run to block
	case k < 10: // uniform choice with preemptions
		s.YieldP = Pick[uint32](r, 300, 1500, 8000, 30000)
	case k < 14: // preemptions at a few statements only
		s.YieldP = Pick[uint32](r, 30000, 65535)
		s.SiteMod = Pick[uint32](r, 8, 40, 150)
	case k < 17: // priorities
		s.Pct = uint32(r.In(1, 6))
		s.PctSpan = Pick[uint32](r, 200, 2000, 20000)
	default: // stalls at a few statements
		s.YieldP = Pick[uint32](r, 0, 1500, 30000)
		s.SiteMod = Pick[uint32](r, 8, 40, 150)
		if !nostall {
			s.StallP = Pick[uint32](r, 3000, 20000, 65535)
			s.StallMax = Pick[uint32](r, 500, 5000, 50000)
		}
	}
	return s
}
