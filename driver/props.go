package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

// What runs for real and what is replaced, per world.
var (
	realCommon = []string{"the Go runtime's goroutines, channels, select, mutexes, wait groups, contexts, timers and garbage collector (under the seeded scheduler and the simulated clock)", "google.golang.org/protobuf"}
	realClient = append([]string{"rawpanellib: ConnectToPanel and everything it calls (negotiation, read loops, writer goroutine, converters, teardown, retry)", "net.Dialer.DialContext up to the system call"}, realCommon...)
	realGorwp  = append([]string{"gorwp: Connect, its read loops, dispatcher, bindings, feedback functions and state", "rawpanellib converters", "topology.Topology"}, realCommon...)
	stubNet    = []string{"the kernel's TCP (sim/simnet: segmentation, delays, back-pressure, FIN, RST, deadlines)", "the wall clock and timers' time source", "the panel: a scripted peer with its own encoder and decoder of the wire formats (sim/worlds/panel.go)"}
	notStarted = []string{"network discovery, the C bindings' cgo layer, the example programs"}
)

const (
	ruleClient = "One run = one generated plan (1-4 connections of a scripted panel: reply class and delay, message stream, cut points, gaps, faults; submissions from 1-3 goroutines; cancellation time and place) executed under one seeded schedule. " +
		"Non-trivial: at least one connection was accepted. distinct_nontrivial counts distinct event histories (every dial, segment, delivery, callback, write, close with its simulated time and payload hash)."
)

var props = map[string]PropDef{
	"C05": {
		Legs: []Leg{{"chunks", false, 300000, 3000000}},
		Rule: "One run = images split by the real encoder, their lines turned into a history (clean, or with lines lost, duplicated, reordered, mixed with another transfer, foreign or mutated lines), fed through batch decoding, the streaming reader, the streaming reader with its state serialised at chosen points, and rawpanel-lib-c's own entry points, with one, two or three readers served by their own goroutines. Non-trivial: at least one image was delivered. distinct_nontrivial counts distinct histories of (line fed, image delivered).",
		Real: append([]string{"rawpanellib: InboundMessagesToRawPanelASCIIstrings, RawPanelASCIIstringsToInboundMessages, ASCIIreader.Parse", "rawpanel-lib-c/main.go's functions (state through JSON between calls)"}, realCommon...),
		Stub: []string{"cgo's C.CString/C.GoString (sim/cfake)", "the transport of the lines: a faulty line channel (loss, duplication, reordering, interruption, restart from persisted state)"},
	},
	"C06": {
		Legs: []Leg{{"conv", false, 400000, 5000000}, {"conv", true, 30000, 200000}},
		Rule: "One run = one plan of 1-6 caller goroutines, each with a list of converter calls (generated, mutated, hostile lines; messages obtained by proto.Unmarshal of generated, truncated and bit-flipped wire bytes); the calls run sequentially first and then concurrently under a seeded schedule preempting between any two statements, and every result is compared with the sequential one. Non-trivial: at least one call returned a message or a line. distinct_nontrivial counts distinct histories of (call, result hash).",
		Real: append([]string{"the four converters, ASCIIreader.Parse, proto.Unmarshal"}, realCommon...),
		Stub: []string{"nothing of the library; callers are harness goroutines"},
	},
	"C08": {Legs: []Leg{{"client", false, 400000, 5000000}}, Rule: ruleClient, Real: realClient, Stub: append(stubNet, notStarted...)},
	"C09": {Legs: []Leg{{"client", false, 150000, 5000000}}, Rule: ruleClient, Real: realClient, Stub: append(stubNet, notStarted...)},
	"C10": {Legs: []Leg{{"client", false, 400000, 5000000}}, Rule: ruleClient, Real: realClient, Stub: append(stubNet, notStarted...)},
	"C11": {Legs: []Leg{{"client", false, 400000, 5000000}}, Rule: ruleClient, Real: realClient, Stub: append(stubNet, notStarted...)},
	"C12": {Legs: []Leg{{"client", false, 1000000, 8000000}, {"detector", false, 800000, 5000000}},
		Rule: ruleClient + " Detector runs: one plan of a reply (class, delay, cuts, close or not) against the stand-alone detector.",
		Real: append([]string{"rawpanellib: AutoDetectIfPanelEncodingIsBinary"}, realClient...), Stub: append(stubNet, notStarted...)},
	"C13": {
		Legs: []Leg{{"lookup", false, 400000, 4000000}, {"lookup", true, 40000, 300000}},
		Rule: "One run = one generated topology (overrides of any subset of attributes, types missing from the index) shared by 1-5 goroutines that make a list of look-ups each, keep the definitions they get and ask them (also each other's) for their predicates, under a seeded schedule preempting between any two statements; in half of the runs another goroutine replaces the contents step by step under the topology's lock, and look-ups must answer for one moment between call and return. Every answer is compared with a reference resolver; at the end serialised form, kept definitions and locks are inspected. Non-trivial: a look-up found something. distinct_nontrivial counts distinct histories of (task, look-up, answer).",
		Real: append([]string{"topology.Topology, its look-ups, resolvers and predicates, encoding/json"}, realCommon...),
		Stub: []string{"nothing of the library; callers and the goroutine that replaces the contents are the harness's"},
	},
	"C14": {
		Legs: []Leg{{"topology", false, 150000, 1500000}},
		Rule: "One run = a generated topology and a sequence of 1-6 transformations (serialise, parse back, renumber in either mode, remove sections) applied to it, with the random source and map iteration order decided by the seed and biased towards collisions. Non-trivial: a renumbering touched two or more types, or a marker was removed. distinct_nontrivial counts distinct histories of (transformation, resulting topology hash).",
		Real: []string{"topology.Topology and its methods, encoding/json"},
		Stub: []string{"math/rand (a seeded source that the simulator can make repeat itself, so that id collisions happen)", "map iteration order", "time.Now used as a seed"},
	},
	"C19": {
		Legs: []Leg{{"gorwp", false, 250000, 3000000}, {"gorwp", true, 40000, 300000}},
		Rule: "One run = one generated plan (panel script in either mode: initialisation messages and their timing, bursts of events, information updates, pings, malformed frames, segmentation, stalls, loss; bindings made before and during the run; handlers that send feedback or bind) executed under one seeded schedule. Non-trivial: the connection was accepted. distinct_nontrivial counts distinct event histories.",
		Real: realGorwp, Stub: append(stubNet, notStarted...),
	},
}

func writeEvidence(prop, tier string, seed uint64, def PropDef, b *builder, results []*legResult, extra *extraResult, violations int, wall time.Duration) {
	runs, dist := 0, 0
	cov := map[string]any{}
	var samples []any
	var legs []any
	for _, lr := range results {
		runs += lr.st.Runs
		dist += len(lr.hist)
		for _, s := range lr.samples {
			if len(samples) < 8 {
				samples = append(samples, lr.leg.World+": "+s)
			}
		}
		legs = append(legs, map[string]any{
			"world": lr.leg.World, "race_detector": lr.leg.Race, "runs": lr.st.Runs, "runs_planned": lr.planned, "stopped_by_wall_clock": lr.timedOut,
			"runs_per_hour":                       int(float64(lr.st.Runs) / lr.wall.Hours()),
			"simulated_seconds":                   float64(lr.st.SimNs) / 1e9,
			"wall_seconds":                        lr.wall.Seconds(),
			"faults_fired":                        lr.st.Faults,
			"probes":                              lr.st.Probes,
			"distinct_schedules":                  len(lr.sched),
			"distinct_histories":                  len(lr.hist),
			"scheduling_decisions":                lr.st.Decisions,
			"goroutine_switches":                  lr.st.Switches,
			"forced_preemptions":                  lr.st.Preempts,
			"statements_executed":                 lr.st.Steps,
			"most_statements_in_a_run":            lr.st.MaxSteps,
			"runs_replayed_identically":           lr.detRuns,
			"runs_replayed_differently":           lr.detBad,
			"violations_of_other_properties_seen": lr.st.OtherViol,
			"known_findings_seen":                 lr.known,
		})
	}
	cov["evaluations"] = runs
	cov["distinct_nontrivial"] = dist
	cov["rule"] = def.Rule
	cov["samples"] = samples
	cov["legs"] = legs
	cov["seeds"] = fmt.Sprintf("every run's plan, schedule and faults derive from hash(VERIF_SEED=%d, property, world, index)", seed)
	cov["interleaving_measure"] = "hash of the sequence of goroutines chosen by the scheduler (distinct_schedules); hash of the event history with simulated payloads (distinct_histories)"
	cov["real_components"] = def.Real
	cov["stub_components"] = def.Stub
	cov["preemption_points"] = b.Instr.Points
	if extra != nil {
		cov["extra"] = map[string]any{"name": extra.Name, "runs": extra.Runs, "notes": extra.Notes}
		runs += extra.Runs
		cov["evaluations"] = runs
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed & 0x7fffffffffffffff), "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
		"assumptions": []string{
			"sequentially consistent execution between preemption points (statements of the library, channel/mutex/timer/network operations); the race-detector legs cover unsynchronised accesses",
			"the simulated TCP network (sim/simnet) behaves like the kernel's for the calls the library makes",
		},
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), j, 0o644); err != nil {
		die("%v", err)
	}
}
