// Package core holds what every simulated world needs: the plan generator's
// random source, the per-run context (event log, hash, violations, fault and
// probe counters) and the registry of worlds.
package core

import (
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Rng is a splitmix64 generator: every plan is a pure function of its seed.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N is uniform in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In is uniform in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p percent.
func (r *Rng) P(p int) bool { return r.N(100) < p }

func (r *Rng) Pick(xs ...int) int        { return xs[r.N(len(xs))] }
func (r *Rng) PickS(xs ...string) string { return xs[r.N(len(xs))] }

// Mix derives independent seeds.
func Mix(a uint64, b uint64) uint64 {
	r := Rng{s: a ^ (b * 0xff51afd7ed558ccd)}
	r.U64()
	return r.U64()
}

func HashString(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// Violation is a broken invariant of one property.
type Violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"` // class, stable under minimisation
	Msg  string `json:"msg"`
	Sig  string `json:"sig,omitempty"` // identifies a known finding
}

// Ctx is one run.
type Ctx struct {
	Prop    string
	Race    bool
	Viol    []Violation
	Faults  map[string]int
	Probes  map[string]int
	TraceOn bool
	Trace   []string
	Hash    uint64
	HistKey uint64 // hash of the history without schedule details
	NonTriv bool
	seq     uint64
	harness map[uint32]string
	stopped bool
	Panics  int
	Alloc   uint64 // bytes allocated during the run
	Traffic uint64 // bytes the harness put in motion
	SimEnd  time.Duration
}

func NewCtx(prop string) *Ctx {
	return &Ctx{Prop: prop, Faults: map[string]int{}, Probes: map[string]int{}, Hash: 0xcbf29ce484222325, HistKey: 0xcbf29ce484222325, harness: map[uint32]string{}}
}

// Seq is the global event sequence number.
func (c *Ctx) Seq() uint64 { c.seq++; return c.seq }

// Now is the simulated time since the start of the run.
func Now() time.Duration { return time.Duration(runtime.SimNow() - 946684800000000000) }

func (c *Ctx) mix(s string) {
	h := c.Hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	h = (h ^ uint64(runtime.SimNow())) * 0x100000001b3
	h = (h ^ uint64(runtime.SimGID())) * 0x100000001b3
	c.Hash = h
}

// Logf records an event of the run.  It never draws randomness.
func (c *Ctx) Logf(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	c.mix(s)
	k := c.HistKey
	for i := 0; i < len(s); i++ {
		k = (k ^ uint64(s[i])) * 0x100000001b3
	}
	c.HistKey = k
	if c.TraceOn && len(c.Trace) < 20000 {
		c.Trace = append(c.Trace, fmt.Sprintf("%12.6fs step=%d g%d %s", Now().Seconds(), runtime.SimStep(), runtime.SimGID(), s))
	}
}

// Fault counts a fault that actually fired.
func (c *Ctx) Fault(kind string) { c.Faults[kind]++ }

// Probe counts a rare condition that was reached.
func (c *Ctx) Probe(name string) { c.Probes[name]++ }

// Fail records a violation of prop.
func (c *Ctx) Fail(prop, kind, format string, a ...any) {
	if len(c.Viol) > 50 {
		return
	}
	m := fmt.Sprintf(format, a...)
	if kind == "race" || kind == "panic" {
		m = scrub.ReplaceAllString(m, "$1?")
	}
	c.Viol = append(c.Viol, Violation{Prop: prop, Kind: kind, Msg: m})
	if kind == "race" || kind == "panic" {
		// stacks and addresses are no part of the execution's identity
		c.Logf("VIOLATION %s/%s", prop, kind)
		return
	}
	c.Logf("VIOLATION %s/%s: %s", prop, kind, m)
}

// scrub removes what differs between processes from stacks.
var scrub = regexp.MustCompile(`(0x|/tmp/vsim-|oroutine )[0-9a-f]+`)

// Go starts a goroutine of the harness (as opposed to the library).
func (c *Ctx) Go(name string, f func()) {
	go func() {
		c.harness[runtime.SimGID()] = name
		defer delete(c.harness, runtime.SimGID())
		defer func() {
			if e := recover(); e != nil {
				c.Panics++
				buf := make([]byte, 6000)
				n := runtime.Stack(buf, false)
				c.Fail(c.Prop, "panic", "panic in %s: %v\n%s", name, e, buf[:n])
			}
		}()
		f()
	}()
}

// MarkHarness marks the current goroutine as the harness's own.
func (c *Ctx) MarkHarness(name string) { c.harness[runtime.SimGID()] = name }

// LibGoroutines lists the goroutines alive in the bubble that the harness did
// not start itself.
func (c *Ctx) LibGoroutines() []string {
	var out []string
	for _, g := range runtime.SimGoroutines() {
		if _, ok := c.harness[g.ID]; ok {
			continue
		}
		if strings.HasPrefix(g.Start, "vsim/") {
			continue // a goroutine of the harness that has not run yet
		}
		out = append(out, fmt.Sprintf("%s (%s)", g.Start, g.Wait))
	}
	sort.Strings(out)
	return out
}

// World is one simulated system.
type World interface {
	// Gen makes the plan of one run for the given property.
	Gen(r *Rng, prop string) any
	// NewPlan returns an empty plan to decode JSON into.
	NewPlan() any
	// Normalize makes any decoded plan a legal one.
	Normalize(prop string, plan any)
	// Run is the main goroutine of the bubble.
	Run(c *Ctx, plan any)
	// After is called outside the bubble with what is left of it.
	After(c *Ctx, plan any, res *runtime.SimResult)
}

var Worlds = map[string]World{}

func Clamp(v *int, lo, hi int) {
	if *v < lo {
		*v = lo
	}
	if *v > hi {
		*v = hi
	}
}
