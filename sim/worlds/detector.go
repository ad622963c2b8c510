package worlds

import (
	"fmt"
	"net"
	"runtime"
	"sync"
	"time"

	rawpanellib "github.com/SKAARHOJ/rawpanel-lib"

	"vsim/core"
	"vsim/simnet"
)

// The detector world: AutoDetectIfPanelEncodingIsBinary on a fresh connection
// to one scripted panel (the stand-alone half of C12).

type DetectorPlan struct {
	Conn Conn
	Half bool // the close after the reply is only of the panel's sending side

	StartMs int
	Others  []DetectorPlan // further connections examined at the same time
}

type detectorWorld struct{ runs []*detection }

type detection struct {
	p        *DetectorPlan
	q        *rec
	result   bool
	returned time.Duration
	start    time.Duration
	atReturn int
}

func init() { core.Worlds["detector"] = &detectorWorld{} }

func (w *detectorWorld) NewPlan() any { return &DetectorPlan{} }

func (w *detectorWorld) Gen(r *core.Rng, prop string) any {
	p := genDetector(r)
	if r.P(15) {
		for k := r.Pick(1, 1, 2); k > 0; k-- {
			o := genDetector(r)
			o.StartMs = r.Pick(0, 0, 1, 100, 1000)
			p.Others = append(p.Others, *o)
		}
	}
	return p
}

func genDetector(r *core.Rng) *DetectorPlan {
	p := &DetectorPlan{}
	p.Conn.Reply = genReply(r, r.PickS("ack", "ack", "ack", "silent", "rdy", "map", "rdy", "map", "frame", "close"))
	rp := &p.Conn.Reply
	rp.DelayMs = r.Pick(0, 0, 0, 1, 20, 500, 1000, 1500, 1900, 1990, 1997, r.N(1997))
	if rp.Kind != "silent" && rp.Kind != "close" && r.P(50) {
		rp.Cuts = genCuts(r, 4, 1997-rp.DelayMs)
	}
	if rp.Kind != "close" && r.P(30) {
		rp.Close = r.PickS("fin", "rst", "halfclose")
		rp.CloseMs = r.Pick(0, 0, 1, 300, 3000)
	}
	if rp.Kind == "silent" {
		// silent means silent until the window is over
		rp.CloseMs = 2005 + r.N(1000)
	}
	rp.JoinNext = r.P(40)
	genAckX(r, rp, 5)
	p.Conn.SegReads = r.P(40)
	if r.P(15) {
		p.Conn.Window = r.Pick(1, 3, 64)
	}
	uid := 0
	if rp.Close == "" {
		p.Conn.Items = genItems(r, &uid, r.N(4), rp.Kind == "ack", r.N(2))
	}
	return p
}

func (w *detectorWorld) Normalize(prop string, plan any) {
	p := plan.(*DetectorPlan)
	normDetector(p)
	if len(p.Others) > 3 {
		p.Others = p.Others[:3]
	}
	for i := range p.Others {
		p.Others[i].Others = nil
		normDetector(&p.Others[i])
	}
}

func normDetector(p *DetectorPlan) {
	core.Clamp(&p.StartMs, 0, 5000)
	rp := &p.Conn.Reply
	d, cuts := rp.DelayMs, rp.Cuts
	half := rp.Close == "halfclose"
	normReply(rp)
	if half {
		rp.Close = "halfclose"
	}
	switch rp.Kind {
	case "ack", "silent", "rdy", "map", "frame", "close":
	default:
		rp.Kind = "ack"
	}
	// the boundary of the window may be approached closely here
	rp.DelayMs, rp.Cuts = d, cuts
	core.Clamp(&rp.DelayMs, 0, 1997)
	left := 1997 - rp.DelayMs
	for i := range rp.Cuts {
		rp.Cuts[i].Off = abs(rp.Cuts[i].Off)
		core.Clamp(&rp.Cuts[i].Ms, 0, left)
		left -= rp.Cuts[i].Ms
	}
	if rp.Kind == "silent" {
		core.Clamp(&rp.CloseMs, 2005, 10000)
	}
	if p.Conn.Window < 0 {
		p.Conn.Window = 0
	}
	p.Conn.Stalls, p.Conn.NoRead = nil, false
	for j := range p.Conn.Items {
		it := &p.Conn.Items[j]
		core.Clamp(&it.GapMs, 0, 20000)
		it.Drib = 0
		switch it.Kind {
		case "msg", "emptyframe":
		default:
			it.Kind = "msg"
		}
		if it.Msg.K == "sized" {
			core.Clamp(&it.Msg.N, 0, 20000)
		}
	}
}

func (w *detectorWorld) Run(c *core.Ctx, plan any) {
	p := plan.(*DetectorPlan)
	plans := []*DetectorPlan{p}
	for i := range p.Others {
		plans = append(plans, &p.Others[i])
	}
	w.runs = nil
	for _, p := range plans {
		w.runs = append(w.runs, &detection{p: p, returned: -1})
	}
	if len(plans) > 1 {
		c.Fault("several-detectors")
	}
	var over sync.WaitGroup
	for i := range w.runs[1:] {
		i := i + 1
		over.Add(1)
		c.Go("main", func() {
			defer over.Done()
			w.runs[i].run(c, i)
		})
	}
	w.runs[0].run(c, 0)
	over.Wait()
	time.Sleep(20 * time.Second)
}

func (w *detection) run(c *core.Ctx, i int) {
	p := w.p
	if p.StartMs > 0 {
		time.Sleep(ms(p.StartMs))
	}
	nw := &simnet.Net{}
	q := newRec()
	q.name = fmt.Sprint(i)
	q.plan = &p.Conn
	w.q = q
	q.cl, q.pn = nw.Pair(p.Conn.Window)
	q.cl.SegmentReads = p.Conn.SegReads
	q.acceptAt = core.Now()
	c.Go("panel", func() { q.serve(c, func(string) {}, 10*time.Second) })
	done := make(chan struct{})
	c.Go("detector", func() {
		runtime.Gosched()
		w.start = core.Now()
		w.result = rawpanellib.AutoDetectIfPanelEncodingIsBinary(net.Conn(q.cl), fmt.Sprintf("10.0.0.%d:9923", i+2))
		w.returned = core.Now()
		w.atReturn = len(q.sent())
		c.Logf("detector %d says binary=%v", i, w.result)
		close(done)
	})
	select {
	case <-done:
	case <-time.After(8 * time.Second):
	}
	time.Sleep(4 * time.Second)
	if core.Now() > c.SimEnd {
		c.SimEnd = core.Now()
	}
	q.die()
	q.pn.Reset()
	q.cl.Close()
}

func (w *detectorWorld) After(c *core.Ctx, plan any, res *runtime.SimResult) {
	runs := w.runs
	w.runs = nil
	if len(runs) == 0 {
		return
	}
	if !res.MainDone {
		c.Fail("C12", "stuck", "the simulation stopped before the run was over")
		return
	}
	c.NonTriv = true
	for _, r := range runs {
		r.check(c)
	}
}

func (w *detection) check(c *core.Ctx) {
	q := w.q
	rp := &w.p.Conn.Reply
	if w.returned < 0 {
		c.Fail("C12", "detector-hangs", "the detector has not returned 8 s after it was called (%s)", rp.describe())
		return
	}
	if d := w.returned - w.start; d > 3*time.Second {
		c.Fail("C12", "detector-slow", "the detector returned after %v (%s)", d, rp.describe())
	}
	b := q.sent()
	if rp.Kind == "close" {
		return // not an answer the property speaks of
	}
	if !isPingProbe(b) {
		c.Fail("C12", "probe", "what the detector wrote does not start with one length-prefixed ping: %s", hexcut(b))
		return
	}
	if q.probeAt < 0 {
		return
	}
	rest := b[q.probeLen:]
	lost := q.panelEnd >= 0 && rp.Close != "halfclose" // a write after the panel is gone is lost
	switch q.mode {
	case "bin":
		if q.replyEnd < 0 {
			return
		}
		if !w.result {
			c.Fail("C12", "class-binary", "panel answered with an acknowledge frame, complete %v after the probe, but the detector says ASCII", q.replyEnd-q.probeAt)
		}
		if len(rest) != 0 {
			c.Fail("C12", "extra-bytes", "binary panel received %s after the probe", hexcut(rest))
		}
	case "ascii":
		if w.result {
			c.Fail("C12", "class-ascii", "panel answered %s, but the detector says binary", rp.describe())
			return
		}
		if string(rest) != "\n" && !(lost && len(rest) == 0) {
			c.Fail("C12", "line-feed", "ASCII panel (%s) received %s after the probe, want exactly one line feed", rp.describe(), hexcut(rest))
		}
		if w.atReturn < len(b) {
			c.Fail("C12", "line-feed", "the line feed to an ASCII panel (%s) was written after the detector returned", rp.describe())
		}
	}
}
