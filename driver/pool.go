package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Job struct {
	Op       string
	Prop     string
	World    string
	Seed     uint64
	From, To int
	Stride   int
	EndAt    int64
	FPEvery  int
	Plan     json.RawMessage `json:",omitempty"`
	Sim      json.RawMessage `json:",omitempty"`
	Trace    bool
	Idx      int
}

type Out struct {
	T      string
	Idx    int
	Viol   []Violation
	Plan   json.RawMessage
	Sim    json.RawMessage
	FP     string
	Trace  []string
	Stats  *Stats
	Steps  uint64
	NDec   uint32
	SimNs  int64
	Err    string
	Sample string
}

type Stats struct {
	Runs      int
	SimNs     int64
	Steps     uint64
	Switches  uint64
	Decisions uint64
	Preempts  uint64
	Faults    map[string]int
	Probes    map[string]int
	Sched     []string
	Hist      []string
	OtherViol map[string]int
	MaxSteps  uint64
	TimedOut  bool
	Next      int
}

// worker is one worker process.
type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	rf     *os.File
	errBuf *capBuf
	last   time.Time
	mu     sync.Mutex
	dead   bool
	log    string
}

type capBuf struct {
	mu sync.Mutex
	b  []byte
}

func (c *capBuf) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.b) < 1<<20 {
		c.b = append(c.b, p...)
	}
	return len(p), nil
}

func (c *capBuf) String() string { c.mu.Lock(); defer c.mu.Unlock(); return string(c.b) }

var workerSeq int
var workerMu sync.Mutex

func startWorker(bin string) (*worker, error) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	workerMu.Lock()
	workerSeq++
	logp := filepath.Join(workDir, fmt.Sprintf("race%d", workerSeq))
	workerMu.Unlock()
	w := &worker{errBuf: &capBuf{}, rf: pr, log: logp}
	w.cmd = exec.Command(bin)
	if !strings.HasSuffix(bin, "-race") {
		// what runs away dies with a stack trace; normal runs need half of this
		w.cmd = exec.Command("/bin/sh", "-c", `ulimit -v 5000000; exec "$0"`, bin)
	}
	w.cmd.Dir = workDir
	w.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "GOTRACEBACK=all", "GODEBUG=asyncpreemptoff=1,asynctimerchan=0", "VSIM_RACELOG=" + logp, "VSIM_REPO=" + repoDir, "VSIM_AS=" + os.Getenv("VSIM_AS"),
		"GORACE=log_path=" + logp + " halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=1"}
	w.cmd.ExtraFiles = []*os.File{pw}
	w.cmd.Stderr = w.errBuf
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	w.out = bufio.NewReaderSize(pr, 1<<20)
	w.last = time.Now()
	return w, nil
}

func (w *worker) send(j *Job) error {
	b, err := json.Marshal(j)
	if err != nil {
		return err
	}
	_, err = w.in.Write(append(b, '\n'))
	return err
}

// recv reads one answer; limit is the wall-clock watchdog.
func (w *worker) recv(limit time.Duration) (*Out, error) {
	tm := time.AfterFunc(limit, func() { w.cmd.Process.Signal(syscall.SIGQUIT); time.Sleep(2 * time.Second); w.cmd.Process.Kill() })
	line, err := w.out.ReadBytes('\n')
	timedOut := !tm.Stop()
	if err != nil {
		if timedOut {
			return nil, fmt.Errorf("watchdog: no answer within %v", limit)
		}
		return nil, io.EOF
	}
	o := &Out{}
	if err := json.Unmarshal(line, o); err != nil {
		return nil, fmt.Errorf("bad answer: %v: %.200s", err, line)
	}
	if o.T == "err" {
		return nil, fmt.Errorf("worker: %s", o.Err)
	}
	return o, nil
}

func (w *worker) stop() {
	if w == nil {
		return
	}
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.rf.Close()
	m, _ := filepath.Glob(w.log + ".*")
	for _, f := range m {
		os.Remove(f)
	}
}

var reRepoFrame = regexp.MustCompile(`(?m)^\t(\S+\.go:\d+)`)

// crashOf turns the death of a worker into a violation, when the library is to
// blame for it.
func (w *worker) crashOf(prop string) (*Violation, string) {
	w.cmd.Wait()
	txt := w.errBuf.String()
	i := strings.Index(txt, "panic: ")
	k := "panic"
	if j := strings.Index(txt, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i, k = j, "fatal"
	}
	if strings.Contains(txt, "sim: step budget exceeded") {
		k = "no-progress"
		i = strings.Index(txt, "sim: step budget exceeded")
	}
	if i < 0 {
		return nil, txt
	}
	msg := txt[i:]
	first := msg
	if n := strings.IndexByte(first, '\n'); n >= 0 {
		first = first[:n]
	}
	// the crashing goroutine is printed first
	blocks := strings.Split(msg, "\n\n")
	lib := false
	var frames []string
	for bi, blk := range blocks {
		if !strings.Contains(blk, "goroutine ") {
			continue
		}
		if bi > 0 && len(frames) > 0 {
			break
		}
		for _, m := range reRepoFrame.FindAllStringSubmatch(blk, -1) {
			frames = append(frames, m[1])
			if strings.HasPrefix(m[1], repoDir+"/") {
				lib = true
			}
		}
	}
	if strings.Contains(first, "send on closed channel") || strings.Contains(first, "close of closed channel") || strings.Contains(first, "negative WaitGroup") {
		if strings.Contains(msg, repoDir+"/") {
			lib = true
		}
	}
	if !lib {
		return nil, txt
	}
	if len(frames) > 12 {
		frames = frames[:12]
	}
	return &Violation{Prop: prop, Kind: k, Msg: first + " at " + strings.Join(frames, " ")}, txt
}

// Found is a failing run.
type Found struct {
	Idx   int
	Viol  []Violation
	Plan  json.RawMessage
	Sim   json.RawMessage
	FP    string
	From  int // first index this process ran
	Crash bool
}

const nproc = 8

// runLeg searches n seeds of one world with nproc processes.
func runLeg(bin, prop string, l Leg, seed uint64, n int, deadline time.Time, known []Known) (*legResult, error) {
	lr := &legResult{leg: l, sched: map[string]bool{}, hist: map[string]bool{}, planned: n, known: map[string]int{}}
	lr.st = Stats{Faults: map[string]int{}, Probes: map[string]int{}, OtherViol: map[string]int{}}
	t0 := time.Now()
	var mu sync.Mutex
	var firstErr error
	stopAll := false
	var ws [nproc]*worker
	fps := map[int]string{} // index -> fingerprint, first process only
	var wg sync.WaitGroup
	for p := 0; p < nproc; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			from := p
			for from < n {
				mu.Lock()
				if stopAll {
					mu.Unlock()
					return
				}
				mu.Unlock()
				w, err := startWorker(bin)
				if err != nil {
					mu.Lock()
					firstErr = err
					mu.Unlock()
					return
				}
				mu.Lock()
				ws[p] = w
				mu.Unlock()
				w.send(&Job{Op: "batch", Prop: prop, World: l.World, Seed: seed, From: from, To: n, Stride: nproc, EndAt: deadline.UnixNano(), FPEvery: 1})
				cur := from
				next := n
				for {
					o, err := w.recv(120 * time.Second)
					mu.Lock()
					if stopAll {
						mu.Unlock()
						w.stop()
						return
					}
					mu.Unlock()
					if err == io.EOF {
						v, txt := w.crashOf(prop)
						w.stop()
						mu.Lock()
						lr.crashes++
						if v == nil {
							firstErr = fmt.Errorf("worker died in run %d of world %s:\n%s", cur, l.World, tail(txt, 3000))
							stopAll = true
						} else if !isKnown(known, *v) {
							lr.found = append(lr.found, &Found{Idx: cur, Viol: []Violation{*v}, From: from, Crash: true})
							stopAll = true
						}
						mu.Unlock()
						next = cur + nproc
						break
					}
					if err != nil {
						txt := w.errBuf.String()
						w.stop()
						mu.Lock()
						if firstErr == nil {
							firstErr = fmt.Errorf("run %d of world %s: %v\n%s", cur, l.World, err, tail(txt, 6000))
						}
						stopAll = true
						mu.Unlock()
						return
					}
					switch o.T {
					case "start":
						cur = o.Idx
					case "fp":
						if p == 0 {
							mu.Lock()
							fps[o.Idx] = o.FP
							mu.Unlock()
						}
					case "sample":
						mu.Lock()
						if len(lr.samples) < 6 {
							lr.samples = append(lr.samples, o.Sample)
						}
						mu.Unlock()
					case "viol":
						mu.Lock()
						vs := filterKnown(known, o.Viol, lr.known)
						if len(vs) > 0 {
							lr.found = append(lr.found, &Found{Idx: o.Idx, Viol: vs, Plan: o.Plan, Sim: o.Sim, FP: o.FP, From: from})
							stopAll = true
						}
						mu.Unlock()
					case "stats":
						mu.Lock()
						lr.add(o.Stats)
						mu.Unlock()
						w.stop()
						next = n
						goto done
					}
				}
			done:
				from = next
			}
		}(p)
	}
	wg.Wait()
	lr.wall = time.Since(t0)
	if len(lr.found) > 0 {
		sort.Slice(lr.found, func(i, j int) bool { return lr.found[i].Idx < lr.found[j].Idx })
		return lr, nil
	}
	if firstErr != nil {
		return nil, firstErr
	}
	// determinism: the first process's first runs again, in a fresh process
	m := 40
	to := m * nproc
	if to > n {
		to = n
	}
	w, err := startWorker(bin)
	if err != nil {
		return nil, err
	}
	defer w.stop()
	w.send(&Job{Op: "batch", Prop: prop, World: l.World, Seed: seed, From: 0, To: to, Stride: nproc, FPEvery: 1, EndAt: time.Now().Add(30 * time.Second).UnixNano()})
	for {
		o, err := w.recv(120 * time.Second)
		if err == io.EOF {
			break // a known crash; nothing to compare
		}
		if err != nil {
			return nil, fmt.Errorf("determinism check: %v", err)
		}
		if o.T == "fp" {
			if want, ok := fps[o.Idx]; ok {
				if want != o.FP {
					// one in some 10^5 runs is known to do this (DESIGN.md 1.1)
					lr.detBad++
					if lr.detBad > 2 {
						return nil, fmt.Errorf("the simulation is not deterministic: run %d of world %s gave %s, then %s", o.Idx, l.World, want, o.FP)
					}
				} else {
					lr.detRuns++
				}
			}
		}
		if o.T == "stats" {
			break
		}
	}
	return lr, nil
}

func (lr *legResult) add(s *Stats) {
	t := &lr.st
	t.Runs += s.Runs
	t.SimNs += s.SimNs
	t.Steps += s.Steps
	t.Switches += s.Switches
	t.Decisions += s.Decisions
	t.Preempts += s.Preempts
	if s.MaxSteps > t.MaxSteps {
		t.MaxSteps = s.MaxSteps
	}
	if s.TimedOut {
		lr.timedOut = true
	}
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for k, v := range s.OtherViol {
		t.OtherViol[k] += v
	}
	for _, h := range s.Sched {
		lr.sched[h] = true
	}
	for _, h := range s.Hist {
		lr.hist[h] = true
	}
}
