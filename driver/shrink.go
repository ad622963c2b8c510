package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"time"
)

// ReplayFile is a minimised failing execution.
type ReplayFile struct {
	Prop      string          `json:"property"`
	World     string          `json:"world"`
	Race      bool            `json:"race_build"`
	Seed      uint64          `json:"verif_seed"`
	Idx       int             `json:"index"`
	Plan      json.RawMessage `json:"plan,omitempty"`
	Sim       json.RawMessage `json:"schedule,omitempty"`
	Batch     *Job            `json:"batch,omitempty"` // state carried across runs: replay these runs in one process
	Violation Violation       `json:"violation"`
	FP        string          `json:"fingerprint,omitempty"`
	Shrink    string          `json:"minimisation,omitempty"`
	Note      string          `json:"note,omitempty"`
	Trace     []string        `json:"trace,omitempty"`
}

type simCfg struct {
	SchedSeed   uint64
	RandSeed    uint64
	Policy      int
	PreemptMean uint64
	StepBudget  uint64
	Replay      bool
	Decisions   []struct{ I, V uint32 }
	Preempts    []uint64
}

// server is a worker that runs single executions, restarted when one crashes.
type server struct {
	bin string
	w   *worker
	n   int
}

func (s *server) run(j *Job) (*Out, error) {
	if s.w == nil {
		w, err := startWorker(s.bin)
		if err != nil {
			return nil, err
		}
		s.w = w
	}
	s.n++
	s.w.send(j)
	for {
		o, err := s.w.recv(120 * time.Second)
		if err == io.EOF {
			v, txt := s.w.crashOf(j.Prop)
			s.w.stop()
			s.w = nil
			if v == nil {
				return nil, fmt.Errorf("worker died:\n%s", tail(txt, 2000))
			}
			return &Out{T: "result", Viol: []Violation{*v}, Plan: j.Plan, Sim: nil}, nil
		}
		if err != nil {
			s.w.stop()
			s.w = nil
			return nil, err
		}
		if o.T == "result" || o.T == "gen" {
			return o, nil
		}
		if o.T == "bad" {
			return nil, nil
		}
	}
}

func (s *server) stop() {
	if s.w != nil {
		s.w.stop()
		s.w = nil
	}
}

func sameClass(vs []Violation, want Violation, known []Known) *Violation {
	for i := range vs {
		v := &vs[i]
		if v.Prop == want.Prop && v.Kind == want.Kind && !isKnown(known, *v) {
			return v
		}
	}
	return nil
}

func minimise(bin, prop string, l Leg, seed uint64, f *Found, deadline time.Time, known []Known) (*ReplayFile, error) {
	sv := &server{bin: bin}
	defer func() { sv.stop() }()
	want := f.Viol[0]
	plan, sim := f.Plan, f.Sim
	if plan == nil {
		o, err := sv.run(&Job{Op: "gen", Prop: prop, World: l.World, Seed: seed, From: f.Idx})
		if err != nil {
			return nil, err
		}
		plan, sim = o.Plan, o.Sim
	}
	rf := &ReplayFile{Prop: prop, World: l.World, Race: l.Race, Seed: seed, Idx: f.Idx}
	// 1. confirm in a fresh process
	sv.stop()
	var o *Out
	var err error
	var v *Violation
	for try := 0; try < 2 && v == nil; try++ {
		sv.stop()
		o, err = sv.run(&Job{Op: "run", Prop: prop, World: l.World, Plan: plan, Sim: sim})
		if err != nil {
			return nil, err
		}
		if o == nil {
			return nil, fmt.Errorf("the plan does not decode")
		}
		v = sameClass(o.Viol, want, known)
	}
	if v == nil {
		return confirmBatch(bin, prop, l, seed, f, rf, want, known)
	}
	rf.Violation = *v
	sizeP0, _ := planSize(plan)
	// 2. shrink the plan
	cur := plan
	curSim := sim
	runs0 := sv.n
	tryPlan := func(p json.RawMessage) bool {
		var base simCfg
		json.Unmarshal(curSim, &base)
		tries := 4
		if f.Crash {
			tries = 2
		}
		for k := 0; k < tries; k++ {
			c := base
			switch k {
			case 0:
			case 1:
				c.Policy, c.PreemptMean = 0, 0
			default:
				c.SchedSeed = base.SchedSeed + uint64(k)*7919
			}
			cj, _ := json.Marshal(c)
			o, err := sv.run(&Job{Op: "run", Prop: prop, World: l.World, Plan: p, Sim: cj})
			if err != nil || o == nil {
				return false
			}
			if v := sameClass(o.Viol, want, known); v != nil {
				if o.Plan != nil {
					cur = o.Plan
				} else {
					cur = p
				}
				curSim = cj
				rf.Violation = *v
				return true
			}
		}
		return false
	}
	shrinkPlan(func() json.RawMessage { return cur }, tryPlan, deadline)
	sizeP1, _ := planSize(cur)
	// 3. shrink the schedule
	d0, d1 := 0, 0
	if !f.Crash {
		o, err := sv.run(&Job{Op: "run", Prop: prop, World: l.World, Plan: cur, Sim: curSim})
		if err == nil && o != nil && sameClass(o.Viol, want, known) != nil && o.Sim != nil {
			var c simCfg
			json.Unmarshal(o.Sim, &c)
			// does the recorded schedule reproduce it?
			if ok, _ := trySim(sv, prop, l, cur, &c, want, known); ok {
				d0 = len(c.Decisions) + len(c.Preempts)
				c = shrinkSched(sv, prop, l, cur, c, want, known, deadline.Add(15*time.Second))
				d1 = len(c.Decisions) + len(c.Preempts)
				curSim, _ = json.Marshal(c)
			}
		}
	}
	n := sv.n - runs0
	// 4. final: two fresh processes must agree
	var fps []string
	for k := 0; k < 2; k++ {
		sv.stop()
		o, err := sv.run(&Job{Op: "run", Prop: prop, World: l.World, Plan: cur, Sim: curSim, Trace: true})
		if err != nil {
			return nil, err
		}
		v := sameClass(o.Viol, want, known)
		if v == nil {
			// fall back to the original run, which was confirmed
			cur, curSim = plan, sim
			o, err = sv.run(&Job{Op: "run", Prop: prop, World: l.World, Plan: cur, Sim: curSim, Trace: true})
			if err != nil {
				return nil, err
			}
			if v = sameClass(o.Viol, want, known); v == nil {
				return nil, fmt.Errorf("the violation does not replay")
			}
		}
		rf.Violation = *v
		rf.FP = o.FP
		rf.Trace = o.Trace
		fps = append(fps, o.FP)
	}
	if len(fps) == 2 && fps[0] != fps[1] {
		// the code under test brings nondeterminism of its own
		rf.Note = fmt.Sprintf("two replays show the violation but differ otherwise: %v", fps)
	}
	if len(rf.Trace) > 400 {
		rf.Trace = append(rf.Trace[:200:200], append([]string{fmt.Sprintf("... %d events ...", len(rf.Trace)-400)}, rf.Trace[len(rf.Trace)-200:]...)...)
	}
	rf.Plan, rf.Sim = cur, curSim
	rf.Shrink = fmt.Sprintf("plan of %d leaves reduced to %d, schedule of %d decisions to %d, in %d executions", sizeP0, sizeP1, d0, d1, n)
	return rf, nil
}

// confirmBatch: the failure needs the runs before it in the same process.
func confirmBatch(bin, prop string, l Leg, seed uint64, f *Found, rf *ReplayFile, want Violation, known []Known) (*ReplayFile, error) {
	try := func(from int) *Violation {
		w, err := startWorker(bin)
		if err != nil {
			return nil
		}
		defer w.stop()
		w.send(&Job{Op: "batch", Prop: prop, World: l.World, Seed: seed, From: from, To: f.Idx + 1, Stride: nproc})
		cur := from
		for {
			o, err := w.recv(120 * time.Second)
			if err == io.EOF {
				v, _ := w.crashOf(prop)
				if v != nil && cur == f.Idx {
					return sameClass([]Violation{*v}, want, known)
				}
				return nil
			}
			if err != nil {
				return nil
			}
			switch o.T {
			case "start":
				cur = o.Idx
			case "viol":
				if o.Idx == f.Idx {
					return sameClass(o.Viol, want, known)
				}
			case "stats":
				return nil
			}
		}
	}
	v := try(f.From)
	if v == nil {
		return nil, fmt.Errorf("it fails neither alone nor after the runs before it: not reproducible")
	}
	// shortest prefix by bisection over its start
	lo, hi := f.From, f.Idx
	for (hi-lo)/nproc > 1 {
		mid := lo + (hi-lo)/nproc/2*nproc
		if x := try(mid); x != nil {
			lo = mid
			v = x
		} else {
			hi = mid
		}
	}
	rf.Batch = &Job{Op: "batch", Prop: prop, World: l.World, Seed: seed, From: lo, To: f.Idx + 1, Stride: nproc}
	rf.Violation = *v
	rf.Shrink = fmt.Sprintf("the violation depends on state the library carries from one run to the next: %d runs in one process", (f.Idx-lo)/nproc+1)
	return rf, nil
}

func trySim(sv *server, prop string, l Leg, plan json.RawMessage, c *simCfg, want Violation, known []Known) (bool, *simCfg) {
	c.Replay = true
	cj, _ := json.Marshal(c)
	o, err := sv.run(&Job{Op: "run", Prop: prop, World: l.World, Plan: plan, Sim: cj})
	if err != nil || o == nil || sameClass(o.Viol, want, known) == nil {
		return false, nil
	}
	if o.Sim != nil {
		var c2 simCfg
		json.Unmarshal(o.Sim, &c2)
		return true, &c2
	}
	return true, nil
}

func shrinkSched(sv *server, prop string, l Leg, plan json.RawMessage, c simCfg, want Violation, known []Known, deadline time.Time) simCfg {
	best := c
	try := func(x simCfg) bool {
		if time.Now().After(deadline) {
			return false
		}
		ok, _ := trySim(sv, prop, l, plan, &x, want, known)
		if ok {
			best = x
		}
		return ok
	}
	x := best
	x.Decisions, x.Preempts = nil, nil
	if try(x) {
		return best
	}
	// preemptions, then decisions, by ddmin
	for n := 2; len(best.Preempts) > 0 && time.Now().Before(deadline); {
		k := (len(best.Preempts) + n - 1) / n
		done := false
		for i := 0; i < len(best.Preempts); i += k {
			x := best
			x.Preempts = append(append([]uint64(nil), best.Preempts[:i]...), best.Preempts[min(i+k, len(best.Preempts)):]...)
			if try(x) {
				done = true
				break
			}
		}
		if done {
			n = max(n-1, 2)
		} else if k == 1 {
			break
		} else {
			n = min(n*2, len(best.Preempts))
		}
	}
	for n := 2; len(best.Decisions) > 0 && time.Now().Before(deadline); {
		k := (len(best.Decisions) + n - 1) / n
		done := false
		for i := 0; i < len(best.Decisions); i += k {
			x := best
			x.Decisions = append(append([]struct{ I, V uint32 }(nil), best.Decisions[:i]...), best.Decisions[min(i+k, len(best.Decisions)):]...)
			if try(x) {
				done = true
				break
			}
		}
		if done {
			n = max(n-1, 2)
		} else if k == 1 {
			break
		} else {
			n = min(n*2, len(best.Decisions))
		}
	}
	return best
}

// --- generic shrinking of a JSON plan ----------------------------------------

func planSize(p json.RawMessage) (int, error) {
	var v any
	if err := json.Unmarshal(p, &v); err != nil {
		return 0, err
	}
	var cnt func(any) int
	cnt = func(v any) int {
		switch v := v.(type) {
		case map[string]any:
			n := 0
			for _, x := range v {
				n += cnt(x)
			}
			return n
		case []any:
			n := 1
			for _, x := range v {
				n += cnt(x)
			}
			return n
		case nil:
			return 0
		}
		return 1
	}
	return cnt(v), nil
}

func decode(p json.RawMessage) any {
	d := json.NewDecoder(strings.NewReader(string(p)))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return nil
	}
	return v
}

// paths lists every array / scalar in the tree.
func walk(v any, path []any, f func(path []any, v any)) {
	switch x := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walk(x[k], append(append([]any(nil), path...), k), f)
		}
	case []any:
		f(path, v)
		for i := range x {
			walk(x[i], append(append([]any(nil), path...), i), f)
		}
	default:
		f(path, v)
	}
}

// set returns a copy of the tree with the value at path replaced.
func set(v any, path []any, nv any) any {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = e
		}
		m[path[0].(string)] = set(x[path[0].(string)], path[1:], nv)
		return m
	case []any:
		a := append([]any(nil), x...)
		i := path[0].(int)
		a[i] = set(a[i], path[1:], nv)
		return a
	}
	return v
}

func get(v any, path []any) (any, bool) {
	for _, p := range path {
		switch x := v.(type) {
		case map[string]any:
			e, ok := x[p.(string)]
			if !ok {
				return nil, false
			}
			v = e
		case []any:
			i, ok := p.(int)
			if !ok || i >= len(x) {
				return nil, false
			}
			v = x[i]
		default:
			return nil, false
		}
	}
	return v, true
}

func shrinkPlan(cur func() json.RawMessage, try func(json.RawMessage) bool, deadline time.Time) {
	late := func() bool { return time.Now().After(deadline) }
	attempt := func(path []any, nv any) bool {
		if late() {
			return false
		}
		root := decode(cur())
		p, err := json.Marshal(set(root, path, nv))
		if err != nil || string(p) == string(compact(cur())) {
			return false
		}
		return try(p)
	}
	for round := 0; round < 6 && !late(); round++ {
		progress := false
		// arrays, outermost first
		var arrs [][]any
		walk(decode(cur()), nil, func(path []any, v any) {
			if _, ok := v.([]any); ok {
				arrs = append(arrs, path)
			}
		})
		sort.SliceStable(arrs, func(i, j int) bool { return len(arrs[i]) < len(arrs[j]) })
		for _, path := range arrs {
			for n := 1; ; {
				v, ok := get(decode(cur()), path)
				a, ok2 := v.([]any)
				if !ok || !ok2 || len(a) == 0 || late() {
					break
				}
				k := (len(a) + n - 1) / n
				done := false
				for i := 0; i < len(a); i += k {
					rest := append(append([]any{}, a[:i]...), a[min(i+k, len(a)):]...)
					if attempt(path, rest) {
						done, progress = true, true
						break
					}
				}
				if done {
					n = max(n-1, 1)
				} else if k == 1 {
					break
				} else {
					n = min(n*2, len(a))
				}
			}
		}
		// scalars
		var scs [][]any
		walk(decode(cur()), nil, func(path []any, v any) {
			if _, ok := v.([]any); !ok {
				scs = append(scs, path)
			}
		})
		for _, path := range scs {
			v, ok := get(decode(cur()), path)
			if !ok || late() {
				continue
			}
			switch x := v.(type) {
			case bool:
				if x && attempt(path, false) {
					progress = true
				}
			case string:
				if x != "" && len(x) > 0 {
					if attempt(path, "") {
						progress = true
					} else {
						// remove chunks of it, halves first
						rs := []rune(x)
						tries := 0
						for k := (len(rs) + 1) / 2; k > 0 && tries < 120; k /= 2 {
							for i := 0; i < len(rs) && tries < 120 && !late(); {
								cand := append(append([]rune{}, rs[:i]...), rs[min(i+k, len(rs)):]...)
								tries++
								if len(cand) > 0 && attempt(path, string(cand)) {
									rs, progress = cand, true
								} else {
									i += k
								}
							}
						}
					}
				}
			case json.Number:
				f, err := x.Int64()
				if err != nil || f == 0 {
					continue
				}
				if attempt(path, 0) {
					progress = true
				} else if f > 1 || f < -1 {
					if attempt(path, 1) {
						progress = true
					} else {
						for f/2 != 0 && attempt(path, f/2) {
							f /= 2
							progress = true
						}
						if attempt(path, f-1) {
							progress = true
						}
					}
				}
			}
		}
		if !progress {
			break
		}
	}
}

func compact(p json.RawMessage) []byte {
	b, _ := json.Marshal(decode(p))
	return b
}

// --- replay -------------------------------------------------------------------

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		die("%v", err)
	}
	bl, err := newBuilder(repoDir, verifDir, workDir)
	if err != nil {
		die("%v", err)
	}
	if ex := props[rf.Prop].Extra; ex != nil && rf.Sim == nil && rf.Batch == nil {
		r, err := ex(bl, "quick", rf.Seed)
		if err != nil {
			die("%v", err)
		}
		if len(r.Viols) > 0 {
			fmt.Printf("reproduced: %s: %s\n", r.Viols[0].Kind, r.Viols[0].Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Prop, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	bin, err := bl.build(rf.Race)
	if err != nil {
		die("%v", err)
	}
	sv := &server{bin: bin}
	defer sv.stop()
	if rf.Batch != nil {
		f := &Found{Idx: rf.Batch.To - 1, From: rf.Batch.From}
		x, err := confirmBatch(bin, rf.Prop, Leg{World: rf.World, Race: rf.Race}, rf.Seed, f, &ReplayFile{}, rf.Violation, nil)
		if err != nil {
			fmt.Println("not reproduced")
			return 0
		}
		fmt.Printf("reproduced: %s: %s\n", x.Violation.Kind, x.Violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Prop, path)
		return 1
	}
	o, err := sv.run(&Job{Op: "run", Prop: rf.Prop, World: rf.World, Plan: rf.Plan, Sim: rf.Sim, Trace: true})
	if err != nil {
		die("%v", err)
	}
	for _, t := range o.Trace {
		fmt.Println(t)
	}
	v := sameClass(o.Viol, rf.Violation, nil)
	if v == nil {
		fmt.Printf("not reproduced (violations: %v)\n", o.Viol)
		return 0
	}
	same := "same execution"
	if o.FP != rf.FP {
		same = "the code under test has changed: fingerprint " + o.FP + ", recorded " + rf.FP
	}
	fmt.Printf("reproduced (%s): %s: %s\n", same, v.Kind, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Prop, path)
	return 1
}

// oneRun prints one run (development aid).
func oneRun(prop, world string, seed uint64, idx int) int {
	bl, err := newBuilder(repoDir, verifDir, workDir)
	if err != nil {
		die("%v", err)
	}
	bin, err := bl.build(os.Getenv("VSIM_RACE") != "")
	if err != nil {
		die("%v", err)
	}
	sv := &server{bin: bin}
	defer sv.stop()
	g, err := sv.run(&Job{Op: "gen", Prop: prop, World: world, Seed: seed, From: idx})
	if err != nil {
		die("%v", err)
	}
	fmt.Println(string(g.Plan))
	o, err := sv.run(&Job{Op: "run", Prop: prop, World: world, Plan: g.Plan, Sim: g.Sim, Trace: true})
	if err != nil {
		die("%v", err)
	}
	for _, t := range o.Trace {
		fmt.Println(t)
	}
	for _, v := range o.Viol {
		fmt.Printf("%s/%s: %s\n", v.Prop, v.Kind, v.Msg)
	}
	fmt.Println(o.FP, o.Steps)
	return 0
}
