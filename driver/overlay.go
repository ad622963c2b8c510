package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A patch replaces exactly `count` occurrences of anchor in a GOROOT file.
type patch struct {
	file   string // relative to GOROOT/src
	anchor string
	repl   string
}

// gorootPatches puts every source of nondeterminism of the Go runtime that the
// library can reach behind the simulator.
var gorootPatches = []patch{
	{"runtime/proc.go",
		"\t// If there's a runnext, it's the next G to run.\n\tnext := pp.runnext\n",
		"\tif simOn {\n\t\tif gp := simRunqget(pp); gp != nil {\n\t\t\treturn gp, false\n\t\t}\n\t\treturn nil, false\n\t}\n\t// If there's a runnext, it's the next G to run.\n\tnext := pp.runnext\n"},
	{"runtime/proc.go",
		"func runqput(pp *p, gp *g, next bool) {\n",
		"func runqput(pp *p, gp *g, next bool) {\n\tif simOn {\n\t\tnext = false\n\t}\n"},
	{"runtime/proc.go",
		"if pp.schedtick%61 == 0 && !sched.runq.empty() {",
		"if !simOn && pp.schedtick%61 == 0 && !sched.runq.empty() {"},
	{"runtime/proc.go",
		"func retake(now int64) uint32 {\n",
		"func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n"},
	{"runtime/proc.go",
		"\tcasgstatus(newg, _Gdead, status)\n",
		"\tsimNewG(newg)\n\tcasgstatus(newg, _Gdead, status)\n"},
	{"runtime/runtime2.go",
		"\tbubble  *synctestBubble\n",
		"\tbubble  *synctestBubble\n\n\tsimid   uint32\n\tsimprio uint32\n"},
	{"runtime/runtime2.go",
		"\twaitReasonSyncCondWait:          true,\n\twaitReasonSynctestWaitGroupWait: true,\n",
		"\twaitReasonSyncCondWait:          true,\n\twaitReasonSyncMutexLock:         true,\n\twaitReasonSyncRWMutexRLock:      true,\n\twaitReasonSyncRWMutexLock:       true,\n\twaitReasonSyncWaitGroupWait:     true,\n\twaitReasonSynctestWaitGroupWait: true,\n"},
	{"runtime/select.go",
		"\t\tj := cheaprandn(uint32(norder + 1))\n",
		"\t\tvar j uint32\n\t\tif simOn && gp.bubble != nil {\n\t\t\tj = uint32(simChoose(norder + 1))\n\t\t} else {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n"},
	{"runtime/time.go",
		"\t\t\tt.rand = cheaprand()\n",
		"\t\t\tif simOn {\n\t\t\t\tt.rand = simTimerRand(t.simid, t.when)\n\t\t\t} else {\n\t\t\t\tt.rand = cheaprand()\n\t\t\t}\n"},
	// Timers are numbered as they are made: a select adds those of its channels
	// in the order of the channels' addresses, which must not matter.
	{"runtime/time.go",
		"\trand    uint32 // randomizes order",
		"\tsimid   uint32\n\trand    uint32 // randomizes order"},
	{"runtime/time.go",
		"\tlockInit(&t.mu, lockRankTimer)\n\tt.f = f\n",
		"\tlockInit(&t.mu, lockRankTimer)\n\tt.simid = simTimerID()\n\tt.f = f\n"},
	{"runtime/rand.go",
		"\tmp := getg().m\n\tc := &mp.chacha8\n",
		"\tmp := getg().m\n\tif simInBubble(mp.curg) {\n\t\treturn simRandNosplit()\n\t}\n\tc := &mp.chacha8\n"},
	{"runtime/rand.go",
		"\tseed := &globalRand.seed\n\tif len(startupRand) >= 16 &&\n",
		"\tseed := &globalRand.seed\n\tif true {\n\t\tseed[0] = 42\n\t} else if len(startupRand) >= 16 &&\n"},
	{"math/rand/rand.go",
		"\tif n <= 0 {\n\t\tpanic(\"invalid argument to Int63n\")\n\t}\n",
		"\tif n <= 0 {\n\t\tpanic(\"invalid argument to Int63n\")\n\t}\n\tif SimRand != nil {\n\t\tif v, ok := SimRand(uint64(n)); ok {\n\t\t\treturn int64(v)\n\t\t}\n\t}\n"},
	{"math/rand/rand.go",
		"\tif n <= 0 {\n\t\tpanic(\"invalid argument to Int31n\")\n\t}\n",
		"\tif n <= 0 {\n\t\tpanic(\"invalid argument to Int31n\")\n\t}\n\tif SimRand != nil {\n\t\tif v, ok := SimRand(uint64(n)); ok {\n\t\t\treturn int32(v)\n\t\t}\n\t}\n"},
	{"math/rand/v2/rand.go",
		"func (r *Rand) uint64n(n uint64) uint64 {\n",
		"func (r *Rand) uint64n(n uint64) uint64 {\n\tif SimRand != nil {\n\t\tif v, ok := SimRand(n); ok {\n\t\t\treturn v\n\t\t}\n\t}\n"},
	{"math/rand/v2/rand.go",
		"func (r *Rand) uint32n(n uint32) uint32 {\n",
		"func (r *Rand) uint32n(n uint32) uint32 {\n\tif SimRand != nil {\n\t\tif v, ok := SimRand(uint64(n)); ok {\n\t\t\treturn uint32(v)\n\t\t}\n\t}\n"},
	// Race builds: every firing of a timer gets a race context of its own, and
	// sync.Pool keeps nothing.  With the single context of a P, and with the
	// harness's own use of pooled objects (fmt), nearly everything that happens
	// in a run would be ordered before nearly everything that follows.
	{"runtime/time.go",
		"\t\tif tsLocal.raceCtx == 0 {\n",
		"\t\tif simOn {\n\t\t\tif simRaceRoot == 0 {\n\t\t\t\tsimRaceRoot = racegostart(abi.FuncPCABIInternal((*timers).run) + sys.PCQuantum)\n\t\t\t}\n\t\t\tsimRaceSaved = tsLocal.raceCtx\n\t\t\ttsLocal.raceCtx = racectxstart(abi.FuncPCABIInternal((*timers).run)+sys.PCQuantum, simRaceRoot)\n\t\t\tsimRaceOwn = tsLocal.raceCtx\n\t\t}\n\t\tif tsLocal.raceCtx == 0 {\n"},
	{"runtime/time.go",
		"\tif raceenabled {\n\t\tgp := getg()\n\t\tgp.racectx = 0\n\t}\n}\n",
		"\tif raceenabled {\n\t\tgp := getg()\n\t\tgp.racectx = 0\n\t\tif simRaceOwn != 0 {\n\t\t\tgp.m.p.ptr().timers.raceCtx = simRaceSaved\n\t\t\tgp.racectx = simRaceOwn\n\t\t\tracegoend()\n\t\t\tgp.racectx = 0\n\t\t\tsimRaceOwn = 0\n\t\t}\n\t}\n}\n"},
	{"sync/pool.go",
		"\t\tif runtime_randn(4) == 0 {\n",
		"\t\tif true {\n"},
	{"runtime/sema.go",
		"func internal_sync_nanotime() int64 {\n",
		"func internal_sync_nanotime() int64 {\n\tif b := getg().bubble; simOn && b != nil {\n\t\treturn b.now\n\t}\n"},
	{"net/dial.go",
		"\tctx, cancel := d.dialCtx(ctx)\n\tdefer cancel()\n\n\t// Shadow the nettrace",
		"\tctx, cancel := d.dialCtx(ctx)\n\tdefer cancel()\n\tif SimDial != nil {\n\t\tc, err := SimDial(ctx, network, address)\n\t\tif err != nil {\n\t\t\treturn nil, &OpError{Op: \"dial\", Net: network, Err: mapErr(err)}\n\t\t}\n\t\treturn c, nil\n\t}\n\n\t// Shadow the nettrace"},
}

// buildOverlay writes the patched GOROOT files and the instrumented library
// sources below dir and returns the path of the overlay description.
func buildOverlay(goroot, repo, verif, dir string) (string, *instrStats, error) {
	replace := map[string]string{}
	cur := map[string]string{}
	for _, p := range gorootPatches {
		path := filepath.Join(goroot, "src", p.file)
		txt, ok := cur[p.file]
		if !ok {
			b, err := os.ReadFile(path)
			if err != nil {
				return "", nil, err
			}
			txt = string(b)
		}
		if c := strings.Count(txt, p.anchor); c != 1 {
			return "", nil, fmt.Errorf("overlay anchor occurs %d times (want 1) in %s: %q", c, path, p.anchor)
		}
		cur[p.file] = strings.Replace(txt, p.anchor, p.repl, 1)
	}
	cur["net/dial.go"] += "\n// SimDial replaces every dial in the simulation.\nvar SimDial func(ctx context.Context, network, address string) (Conn, error)\n"
	for _, f := range []string{"math/rand/rand.go", "math/rand/v2/rand.go"} {
		cur[f] += "\n// SimRand, if set, may choose a number below n.\nvar SimRand func(n uint64) (uint64, bool)\n"
	}
	for f, txt := range cur {
		out := filepath.Join(dir, "goroot", f)
		if err := writeFile(out, txt); err != nil {
			return "", nil, err
		}
		replace[filepath.Join(goroot, "src", f)] = out
	}
	b, err := os.ReadFile(filepath.Join(verif, "overlay", "sim.go.txt"))
	if err != nil {
		return "", nil, err
	}
	out := filepath.Join(dir, "goroot", "runtime", "sim_overlay.go")
	if err := writeFile(out, string(b)); err != nil {
		return "", nil, err
	}
	replace[filepath.Join(goroot, "src", "runtime", "sim_overlay.go")] = out

	st, err := instrument(repo, dir, replace)
	if err != nil {
		return "", nil, err
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	op := filepath.Join(dir, "overlay.json")
	return op, st, os.WriteFile(op, js, 0o644)
}

func writeFile(path, txt string) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, []byte(txt), 0o644)
}
