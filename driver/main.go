// The driver builds the simulation workers from the current working tree,
// searches seeds, minimises what fails and writes replay files and evidence.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	repoDir  string
	verifDir string
	workDir  string
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: ERROR: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if workDir != "" && strings.Contains(workDir, "vsim-") && os.Getenv("VSIM_KEEP") == "" {
		os.RemoveAll(workDir)
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: driver check|replay|probe ...")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	seedS := fs.String("seed", envOr("VERIF_SEED", "1"), "seed")
	fs.StringVar(&repoDir, "repo", envOr("VSIM_REPO", "/repo"), "library working tree")
	fs.StringVar(&verifDir, "verif", "", "this framework's directory")
	file := fs.String("file", "", "replay file")
	world := fs.String("world", "", "only this world (dev)")
	idx := fs.Int("idx", -1, "run one index (dev)")
	nruns := fs.Int("n", 0, "number of runs (dev)")
	scale := fs.Float64("scale", 1, "run count factor (dev)")
	fs.Parse(os.Args[2:])
	if verifDir == "" {
		die("-verif missing")
	}
	seed, err := strconv.ParseUint(strings.TrimSpace(*seedS), 0, 64)
	if err != nil {
		seed = 0
		for _, c := range []byte(*seedS) {
			seed = seed*131 + uint64(c)
		}
	}
	workDir, err = os.MkdirTemp("", "vsim-")
	if err != nil {
		die("%v", err)
	}
	start := time.Now()
	var rc int
	switch os.Args[1] {
	case "check":
		rc = check(*prop, *tier, seed, *world, *nruns, *scale, start)
	case "replay":
		rc = replay(*file)
	case "setup":
		rc = setup()
	case "one":
		rc = oneRun(*prop, *world, seed, *idx)
	default:
		die("unknown command %s", os.Args[1])
	}
	cleanup()
	os.Exit(rc)
}

// setup builds the workers once.
func setup() int {
	b, err := newBuilder(repoDir, verifDir, workDir)
	if err != nil {
		die("%v", err)
	}
	for _, race := range []bool{false, true} {
		t := time.Now()
		if _, err := b.build(race); err != nil {
			die("the workers do not build from %s: %v", repoDir, err)
		}
		fmt.Printf("vsim: built worker race=%v in %.1fs (%d preemption points)\n", race, time.Since(t).Seconds(), b.Instr.Points)
	}
	return 0
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Leg is one world (in one build) a property is explored in.
type Leg struct {
	World    string
	Race     bool
	Quick    int // number of runs
	Thorough int
}

type PropDef struct {
	Legs  []Leg
	Real  []string
	Stub  []string
	Rule  string
	Extra func(b *builder, tier string, seed uint64) (*extraResult, error)
}

type extraResult struct {
	Name  string
	Runs  int
	Notes map[string]any
	Viols []Violation
	Input json.RawMessage
}

type Violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Sig  string `json:"sig,omitempty"`
}

type legResult struct {
	leg      Leg
	st       Stats
	sched    map[string]bool
	hist     map[string]bool
	samples  []string
	found    []*Found
	wall     time.Duration
	planned  int
	detRuns  int
	detBad   int
	known    map[string]int
	crashes  int
	timedOut bool
}

func check(prop, tier string, seed uint64, onlyWorld string, nruns int, scale float64, start time.Time) int {
	def, ok := props[prop]
	if !ok {
		die("property %s is not claimed", prop)
	}
	fmt.Printf("vsim: property=%s tier=%s VERIF_SEED=%d\n", prop, tier, seed)
	b, err := newBuilder(repoDir, verifDir, workDir)
	if err != nil {
		die("%v", err)
	}
	bins := map[bool]string{}
	for _, l := range def.Legs {
		if onlyWorld != "" && l.World != onlyWorld {
			continue
		}
		if _, ok := bins[l.Race]; !ok {
			t := time.Now()
			p, err := b.build(l.Race)
			if err != nil {
				die("the workers do not build from %s: %v", repoDir, err)
			}
			bins[l.Race] = p
			fmt.Printf("vsim: built worker race=%v in %.1fs (%d preemption points)\n", l.Race, time.Since(t).Seconds(), b.Instr.Points)
		}
	}
	known := loadKnown(prop)
	// wall-clock budget for the search; the number of runs is fixed so that a
	// seed names the same set of runs on any machine fast enough
	budget := 150 * time.Second
	shrink := 40 * time.Second
	if tier == "thorough" {
		budget = 600 * time.Second
		shrink = 120 * time.Second
	}
	if v := os.Getenv("VSIM_BUDGET"); v != "" {
		if n, e := strconv.Atoi(v); e == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	total := 0
	for _, l := range def.Legs {
		total += l.Quick
	}
	var results []*legResult
	var hit *Found
	var hitLeg *legResult
	deadline := time.Now().Add(budget)
	var legs []Leg
	for _, l := range def.Legs {
		if onlyWorld == "" || l.World == onlyWorld {
			legs = append(legs, l)
		}
	}
	for i, l := range legs {
		n := l.Quick
		if tier == "thorough" {
			n = l.Thorough
		}
		n = int(float64(n) * scale)
		if nruns > 0 {
			n = nruns
		}
		left := time.Until(deadline)
		share := left / time.Duration(len(legs)-i)
		lr, err := runLeg(bins[l.Race], prop, l, seed, n, time.Now().Add(share), known)
		if err != nil {
			die("%v", err)
		}
		results = append(results, lr)
		if len(lr.found) > 0 {
			hit, hitLeg = lr.found[0], lr
			break
		}
	}
	var extra *extraResult
	if hit == nil && def.Extra != nil && onlyWorld == "" {
		extra, err = def.Extra(b, tier, seed)
		if err != nil {
			die("%v", err)
		}
	}
	rc := 0
	violations := 0
	if hit != nil {
		violations = 1
		rf, err := minimise(bins[hitLeg.leg.Race], prop, hitLeg.leg, seed, hit, time.Now().Add(shrink), known)
		if err != nil {
			die("run %d of world %s failed (%s: %s) but: %v", hit.Idx, hitLeg.leg.World, hit.Viol[0].Kind, hit.Viol[0].Msg, err)
		}
		path := writeReplay(prop, rf)
		fmt.Printf("violated: %s/%s: %s\n", rf.Violation.Prop, rf.Violation.Kind, rf.Violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		rc = 1
	} else if extra != nil && len(extra.Viols) > 0 {
		violations = 1
		rf := &ReplayFile{Prop: prop, World: extra.Name, Plan: extra.Input, Violation: extra.Viols[0]}
		path := writeReplay(prop, rf)
		fmt.Printf("violated: %s/%s: %s\n", prop, rf.Violation.Kind, rf.Violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		rc = 1
	} else {
		for _, k := range known {
			if k.Fixed == "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			}
		}
	}
	writeEvidence(prop, tier, seed, def, b, results, extra, violations, time.Since(start))
	if rc == 0 {
		for _, lr := range results {
			fmt.Printf("vsim: %s race=%v: %d of %d runs, %d distinct schedules, %d distinct histories, %.0f s simulated in %.1f s; faults %s; other %v\n",
				lr.leg.World, lr.leg.Race, lr.st.Runs, lr.planned, len(lr.sched), len(lr.hist), float64(lr.st.SimNs)/1e9, lr.wall.Seconds(), mapStr(lr.st.Faults), lr.st.OtherViol)
		}
		fmt.Printf("vsim: %s held on everything explored (%.1fs)\n", prop, time.Since(start).Seconds())
	}
	return rc
}

func mapStr(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(s, " ")
}

func writeReplay(prop string, rf *ReplayFile) string {
	dir := filepath.Join(verifDir, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	j, _ := json.MarshalIndent(rf, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", prop, rf.World, hashStr(string(rf.Plan)+rf.Violation.Kind)))
	if err := os.WriteFile(path, j, 0o644); err != nil {
		die("%v", err)
	}
	return path
}

func hashStr(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

// --- known findings ---------------------------------------------------------

// Known is a recorded finding: it suppresses exactly the violations with its
// property, kind and signature.
type Known struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // commit of the repair: suppresses nothing
}

func loadKnown(prop string) []Known {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die("known_findings.json: %v", err)
	}
	var out []Known
	for _, k := range f.Findings {
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func isKnown(known []Known, v Violation) bool {
	for _, k := range known {
		if k.Fixed == "" && k.Kind == v.Kind && k.Sig != "" && k.Sig == v.Sig {
			return true
		}
	}
	return false
}

func filterKnown(known []Known, vs []Violation, count map[string]int) []Violation {
	var out []Violation
	for _, v := range vs {
		if isKnown(known, v) {
			if count != nil {
				count[v.Kind+"/"+v.Sig]++
			}
			continue
		}
		out = append(out, v)
	}
	return out
}
