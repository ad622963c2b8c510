// The worker runs simulated executions.  Protocol: jobs as JSON lines on stdin,
// answers as JSON lines on file descriptor 3.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	log "github.com/s00500/env_logger"
	"github.com/sirupsen/logrus"

	"vsim/core"
	_ "vsim/worlds"
)

type Job struct {
	Op       string // batch, run
	Prop     string
	World    string
	Seed     uint64 // base seed (batch)
	From, To int
	Stride   int
	EndAt    int64 // unix ns: stop the batch then
	FPEvery  int
	Plan     json.RawMessage
	Sim      *runtime.SimConfig
	Trace    bool
	Idx      int
}

type Out struct {
	T      string
	Idx    int                `json:",omitempty"`
	Viol   []core.Violation   `json:",omitempty"`
	Plan   json.RawMessage    `json:",omitempty"`
	Sim    *runtime.SimConfig `json:",omitempty"`
	FP     string             `json:",omitempty"`
	Trace  []string           `json:",omitempty"`
	Stats  *Stats             `json:",omitempty"`
	Steps  uint64             `json:",omitempty"`
	NDec   uint32             `json:",omitempty"`
	SimNs  int64              `json:",omitempty"`
	Err    string             `json:",omitempty"`
	Sample string             `json:",omitempty"`
}

type Stats struct {
	Runs      int
	SimNs     int64
	Steps     uint64
	Switches  uint64
	Decisions uint64
	Preempts  uint64
	Faults    map[string]int
	Probes    map[string]int
	Sched     []string // hashes of distinct schedules
	Hist      []string // hashes of distinct non-trivial histories
	OtherViol map[string]int
	MaxSteps  uint64
	TimedOut  bool
	Next      int
}

var out *bufio.Writer

func emit(o *Out) {
	b, err := json.Marshal(o)
	if err != nil {
		b, _ = json.Marshal(&Out{T: "err", Err: err.Error()})
	}
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	log.SetLevel(logrus.PanicLevel)
	out = bufio.NewWriter(os.NewFile(3, "results"))
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if null != nil {
		os.Stdout = null
	}
	_ = net.SimDial
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var j Job
			if e := json.Unmarshal(line, &j); e != nil {
				emit(&Out{T: "err", Err: e.Error()})
				os.Exit(2)
			}
			handle(&j)
		}
		if err != nil {
			return
		}
	}
}

func handle(j *Job) {
	w := core.Worlds[j.World]
	if w == nil {
		emit(&Out{T: "err", Err: "no world " + j.World})
		os.Exit(2)
	}
	switch j.Op {
	case "batch":
		batch(w, j)
	case "run":
		plan := w.NewPlan()
		if err := json.Unmarshal(j.Plan, plan); err != nil {
			emit(&Out{T: "bad", Err: err.Error()})
			return
		}
		w.Normalize(j.Prop, plan)
		c, res := one(w, j.Prop, plan, j.Sim, j.Trace)
		pj, _ := json.Marshal(plan)
		rs := replayCfg(j.Sim, &res)
		emit(&Out{T: "result", Idx: j.Idx, Viol: c.Viol, Plan: pj, Sim: rs, FP: fp(c, &res), Trace: c.Trace, Steps: res.Steps, NDec: res.NDecisions, SimNs: res.Now})
		gc()
	case "gen":
		plan, cfg := gen(w, j, j.From)
		pj, _ := json.Marshal(plan)
		emit(&Out{T: "gen", Idx: j.From, Plan: pj, Sim: cfg})
	}
}

// replayCfg is the recorded schedule of a run.
func replayCfg(cfg *runtime.SimConfig, res *runtime.SimResult) *runtime.SimConfig {
	c := *cfg
	if !c.Replay {
		c.Replay = true
		c.PreemptMean = 0
	}
	c.Decisions = res.Decisions
	c.Preempts = res.Preempts
	if res.Overflow {
		return nil
	}
	return &c
}

func fp(c *core.Ctx, res *runtime.SimResult) string {
	return fmt.Sprintf("%016x-%016x-%d-%d", c.Hash, res.Hash, res.Steps, res.Now)
}

// Stepper lets a world choose the step budget of a run.
type Stepper interface{ Budget(prop string) uint64 }

func gen(w core.World, j *Job, idx int) (any, *runtime.SimConfig) {
	s := core.Mix(core.Mix(j.Seed, core.HashString(j.Prop+"/"+j.World)), uint64(idx)+1)
	r := core.NewRng(s)
	cfg := &runtime.SimConfig{SchedSeed: r.U64(), RandSeed: r.U64()}
	switch r.N(8) {
	case 0:
		cfg.Policy = runtime.SimFIFO
	case 1, 2, 3:
		cfg.Policy = runtime.SimUniform
	case 4, 5, 6:
		cfg.Policy = runtime.SimPrio
	case 7:
		cfg.Policy = runtime.SimLIFO
	}
	cfg.PreemptMean = []uint64{0, 0, 4, 15, 40, 100, 300, 1000, 5000}[r.N(9)]
	cfg.StepBudget = 200_000_000
	if b, ok := w.(Stepper); ok {
		cfg.StepBudget = b.Budget(j.Prop)
	}
	plan := w.Gen(r, j.Prop)
	w.Normalize(j.Prop, plan)
	return plan, cfg
}

func one(w core.World, prop string, plan any, cfg *runtime.SimConfig, trace bool) (*core.Ctx, runtime.SimResult) {
	c := core.NewCtx(prop)
	c.Race = raceBuild
	c.TraceOn = trace
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	re := raceErrors()
	res := runtime.SimBubble(cfg, func() {
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 6000)
				n := runtime.Stack(buf, false)
				c.Fail(prop, "panic", "panic in the main goroutine: %v\n%s", e, buf[:n])
			}
		}()
		c.MarkHarness("main")
		w.Run(c, plan)
	})
	runtime.ReadMemStats(&m1)
	c.Alloc = m1.TotalAlloc - m0.TotalAlloc
	w.After(c, plan, &res)
	if raceErrors() > re {
		if txt := raceText(); txt != "" {
			c.Fail(prop, "race", "data race:\n%s", txt)
		}
	}
	if as := os.Getenv("VSIM_AS"); as != "" {
		// development: treat one kind of violation as this property's
		for i := range c.Viol {
			if c.Viol[i].Prop+"/"+c.Viol[i].Kind == as {
				c.Viol[i].Prop = prop
			}
		}
	}
	return c, res
}

var sinceGC int

func gc() {
	sinceGC++
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 200<<20 || sinceGC > 400 {
		runtime.GC()
		sinceGC = 0
	}
}

func batch(w core.World, j *Job) {
	st := &Stats{Faults: map[string]int{}, Probes: map[string]int{}, OtherViol: map[string]int{}}
	sched := map[uint64]bool{}
	hist := map[uint64]bool{}
	if j.Stride < 1 {
		j.Stride = 1
	}
	idx := j.From
	for ; idx < j.To; idx += j.Stride {
		if j.EndAt != 0 && time.Now().UnixNano() > j.EndAt {
			st.TimedOut = true
			break
		}
		emit(&Out{T: "start", Idx: idx})
		plan, cfg := gen(w, j, idx)
		c, res := one(w, j.Prop, plan, cfg, false)
		st.Runs++
		st.SimNs += res.Now
		st.Steps += res.Steps
		if res.Steps > st.MaxSteps {
			st.MaxSteps = res.Steps
		}
		st.Switches += res.Switches
		st.Decisions += uint64(res.NDecisions)
		st.Preempts += uint64(len(res.Preempts))
		for k, v := range c.Faults {
			st.Faults[k] += v
		}
		for k, v := range c.Probes {
			st.Probes[k] += v
		}
		sched[res.Hash] = true
		if c.NonTriv {
			hist[c.HistKey] = true
		}
		if j.FPEvery > 0 && (idx/j.Stride)%j.FPEvery == 0 {
			emit(&Out{T: "fp", Idx: idx, FP: fp(c, &res)})
		}
		if len(c.Viol) > 0 {
			mine := c.Viol[:0:0]
			for _, v := range c.Viol {
				if v.Prop == j.Prop {
					mine = append(mine, v)
				} else {
					st.OtherViol[v.Prop+"/"+v.Kind]++
				}
			}
			if len(mine) > 0 {
				pj, _ := json.Marshal(plan)
				emit(&Out{T: "viol", Idx: idx, Viol: mine, Plan: pj, Sim: cfg, FP: fp(c, &res)})
			}
		}
		if st.Runs <= 3 {
			pj, _ := json.Marshal(plan)
			s := string(pj)
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			emit(&Out{T: "sample", Idx: idx, Sample: fmt.Sprintf("run %d: policy=%d preempt=%d steps=%d sim=%v plan=%s", idx, cfg.Policy, cfg.PreemptMean, res.Steps, time.Duration(res.Now), strings.TrimSpace(s))})
		}
		gc()
	}
	st.Next = idx
	for h := range sched {
		st.Sched = append(st.Sched, fmt.Sprintf("%x", h))
	}
	for h := range hist {
		st.Hist = append(st.Hist, fmt.Sprintf("%x", h))
	}
	emit(&Out{T: "stats", Stats: st})
}
