package worlds

import (
	"context"
	"errors"
	"fmt"
	"net"
	"runtime"
	"strings"
	"sync"
	"time"

	rawpanellib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"

	"vsim/core"
	"vsim/simnet"
)

// The client world: ConnectToPanel against scripted panels.  Properties C08,
// C09, C10, C11 and the reconnecting half of C12.

// SubList is one message list handed to the client.
type SubList struct {
	GapMs int
	Msgs  []MsgSpec
}

// Submitter is one goroutine handing lists to the client.
type Submitter struct {
	Conn    int // waits for the Conn-th onconnect (-1: starts at once)
	DelayMs int
	Lists   []SubList
}

// ClientPlan is one run.
type ClientPlan struct {
	NoConn, ReConn   int // seconds, 0 = default
	NilConfig        bool
	NilWG            bool
	NilConnCB        bool
	NilDiscCB        bool
	FromBuf, ToBuf   int
	Consumer         []Stall
	Dials            []Dial
	Subs             []Submitter
	CancelOn         string
	CancelN          int
	CancelMs         int
	OnConnMs         int
	OnDiscMs         int
	TailMs           int
	SubsBetweenConns bool
	StartMs          int
	Others           []ClientPlan // further clients in the same process, each with its panel
}

func (p *ClientPlan) noConn() time.Duration {
	if p.NilConfig || p.NoConn == 0 {
		return 3 * time.Second
	}
	return time.Duration(p.NoConn) * time.Second
}

func (p *ClientPlan) reConn() time.Duration {
	if p.NilConfig || p.ReConn == 0 {
		return time.Second
	}
	return time.Duration(p.ReConn) * time.Second
}

type span struct{ a, b time.Duration }

type delivery struct {
	at    time.Duration
	msg   *rwp.OutboundMessage
	clone *rwp.OutboundMessage
	nilm  bool
}

type submission struct {
	sub, idx int
	msgs     []MsgSpec
	start    time.Duration // when the hand-over began
	done     time.Duration // when it completed (-1: never)
	seq      uint64
	doneSeq  uint64
}

type clientRun struct {
	c     *core.Ctx
	p     *ClientPlan
	idx   int
	addr  string
	meet  *meet
	net   *simnet.Net
	recs  []*rec
	ctx   context.Context
	cancl context.CancelFunc

	cancelAt    time.Duration // -1
	cancelSeq   uint64
	cancelWhy   string
	cancelCh    chan struct{}
	returned    time.Duration // -1
	retCh       chan struct{}
	wgDone      time.Duration // -1
	wgAfterDial bool          // the wait group was waited for when the client was at work
	stop        chan struct{} // harness goroutines: finish

	counts   map[string]int
	lastEv   time.Duration
	endArmed bool

	delivered []delivery
	consSpans []span // times the consumer did not read
	cbSpans   []span
	subs      []*submission
	connIdx   []int // attempts that got an onconnect, in order
	lastCB    string
	connCh    []chan struct{} // closed at the n-th onconnect
	subSend   chan<- []*rwp.InboundMessage
	leak      []string
}

type clientWorld struct{ runs []*clientRun }

// meet lets the clients of one process wait for each other.
type meet struct {
	left int
	ch   chan struct{}
}

func (m *meet) arrive() {
	m.left--
	if m.left == 0 {
		close(m.ch)
	}
	<-m.ch
}

func init() { core.Worlds["client"] = &clientWorld{} }

func (w *clientWorld) NewPlan() any { return &ClientPlan{} }

func (w *clientWorld) Run(c *core.Ctx, plan any) {
	p := plan.(*ClientPlan)
	plans := []*ClientPlan{p}
	for i := range p.Others {
		plans = append(plans, &p.Others[i])
	}
	w.runs = nil
	m := &meet{len(plans), make(chan struct{})}
	for i, p := range plans {
		r := &clientRun{c: c, p: p, idx: i, addr: fmt.Sprintf("10.0.0.%d:9923", i+2), net: &simnet.Net{}, cancelAt: -1, returned: -1, wgDone: -1, cancelCh: make(chan struct{}), retCh: make(chan struct{}), stop: make(chan struct{}), counts: map[string]int{}, meet: m}
		for i := 0; i <= len(p.Dials)+1; i++ {
			r.connCh = append(r.connCh, make(chan struct{}))
		}
		w.runs = append(w.runs, r)
	}
	net.SimDial = func(ctx context.Context, network, addr string) (net.Conn, error) {
		for _, r := range w.runs {
			if r.addr == addr {
				return r.dial(ctx, network, addr)
			}
		}
		c.Fail(c.Prop, "dial", "the client dials %s, which nobody asked for", addr)
		return nil, simnet.ErrRefused
	}
	if len(w.runs) > 1 {
		c.Fault("several-clients")
	}
	var done sync.WaitGroup
	for _, r := range w.runs[1:] {
		done.Add(1)
		r := r
		c.Go("main", func() {
			defer done.Done()
			r.live()
		})
	}
	w.runs[0].live()
	done.Wait()
	c.SimEnd = core.Now()
	net.SimDial = nil
}

func (r *clientRun) live() {
	c, p := r.c, r.p
	if r.p.StartMs > 0 {
		time.Sleep(ms(r.p.StartMs))
	}
	r.ctx, r.cancl = context.WithCancel(context.Background())
	toPanel := make(chan []*rwp.InboundMessage, p.ToBuf)
	fromPanel := make(chan []*rwp.OutboundMessage, p.FromBuf)
	r.subSend = toPanel
	var wg *sync.WaitGroup
	if !p.NilWG {
		wg = &sync.WaitGroup{}
	}

	c.Go("consumer", func() { r.consume(fromPanel) })
	for i := range p.Subs {
		i := i
		c.Go(fmt.Sprintf("submitter%d", i), func() { r.submit(i) })
	}
	var onc func(string, bool, net.Conn)
	var ond func(bool)
	if !p.NilConnCB {
		onc = r.onConnect
	}
	if !p.NilDiscCB {
		ond = r.onDisconnect
	}
	var cfg *rawpanellib.ConnectToPanelConfig
	if !p.NilConfig {
		cfg = &rawpanellib.ConnectToPanelConfig{NoConnectionRetryPeriod: p.NoConn, ReConnectionRetryPeriod: p.ReConn}
	}
	c.Go("client", func() {
		defer func() {
			r.returned = core.Now()
			c.Logf("ConnectToPanel returned")
			close(r.retCh)
		}()
		rawpanellib.ConnectToPanel(r.addr, toPanel, fromPanel, r.ctx, wg, onc, ond, cfg)
	})
	r.ev("start")

	// idle watchdog: whatever happens the run is cancelled in the end
	maxWait := r.p.noConn() + r.p.reConn() + 20*time.Second + r.longestStall() + r.longestGap()
watch:
	for {
		select {
		case <-r.cancelCh:
			break watch
		case <-r.retCh:
			break watch
		case <-time.After(maxWait/2 + time.Second):
			if core.Now()-r.lastEv > maxWait {
				r.cancel("idle end")
			}
			if core.Now() > 30*time.Minute {
				r.cancel("time limit")
			}
		}
	}
	wgCh := make(chan struct{})
	if wg != nil {
		c.Go("wgwaiter", func() {
			runtime.Gosched()
			r.wgAfterDial = len(r.recs) > 0
			wg.Wait()
			r.wgDone = core.Now()
			c.Logf("wait group drained")
			close(wgCh)
		})
	} else {
		close(wgCh)
	}
	// Bounded time after the cancellation (or an early return).
	limit := core.Now() + 12*time.Second + r.longestStall()
	select {
	case <-r.retCh:
	case <-time.After(limit - core.Now()):
	}
	select {
	case <-wgCh:
	case <-time.After(limit - core.Now() + time.Second):
	}
	r.meet.arrive()
	if r.returned >= 0 && (wg == nil || r.wgDone >= 0) {
		time.Sleep(time.Millisecond)
		if wg == nil {
			time.Sleep(500 * time.Millisecond)
		}
		r.leak = c.LibGoroutines()
		// The caller may close its channels now.
		close(r.stop)
		time.Sleep(time.Millisecond)
		close(toPanel)
		close(fromPanel)
	} else {
		close(r.stop)
		r.leak = c.LibGoroutines()
	}
	for _, q := range r.recs {
		if q.pn != nil {
			q.pn.Reset()
		}
	}
	// anything that still moves may do so
	time.Sleep(5 * time.Second)
}

func (r *clientRun) longestStall() time.Duration {
	d := ms(r.p.OnConnMs) + ms(r.p.OnDiscMs)
	for _, s := range r.p.Consumer {
		d += ms(s.Ms)
	}
	return d
}

// longestGap is the longest silence that the script asks a panel for.
func (r *clientRun) longestGap() time.Duration {
	g := 0
	for i := range r.p.Dials {
		for j := range r.p.Dials[i].Conn.Items {
			g = max(g, r.p.Dials[i].Conn.Items[j].GapMs)
		}
	}
	return ms(g)
}

// ev counts an event of the run and fires the cancellation planned for it.
func (r *clientRun) ev(name string) {
	r.counts[name]++
	if name != "tick" {
		r.lastEv = core.Now()
	}
	if r.p.CancelOn == name && r.counts[name] == r.p.CancelN+1 {
		d := ms(r.p.CancelMs)
		if d == 0 {
			r.cancel("at " + name)
		} else {
			r.c.Go("canceller", func() {
				select {
				case <-time.After(d):
					r.cancel(fmt.Sprintf("%v after %s", d, name))
				case <-r.stop:
				}
			})
		}
	}
	if (name == "scriptdone" || name == "extradial") && !r.endArmed && len(r.recs) >= len(r.p.Dials) {
		r.endArmed = true
		r.c.Go("endcancel", func() {
			select {
			case <-time.After(ms(r.p.TailMs)):
				r.cancel("end of the script")
			case <-r.stop:
			case <-r.cancelCh:
			}
		})
	}
}

func (r *clientRun) cancel(why string) {
	if r.cancelAt >= 0 {
		return
	}
	r.cancelAt = core.Now()
	r.cancelWhy = why
	r.cancelSeq = r.c.Seq()
	r.c.Logf("CANCEL (%s)", why)
	// what the client was doing
	ph := "before-first-dial"
	if n := len(r.recs); n > 0 {
		q := r.recs[n-1]
		switch {
		case !q.dialDone:
			ph = "dialling"
		case q.pn == nil:
			ph = "no-connection-wait"
		case q.onDiscAt >= 0 || q.cl.Closed():
			ph = "reconnect-wait"
		case q.onConnAt < 0:
			ph = "negotiating"
		case q.panelEnd >= 0:
			ph = "losing"
		default:
			ph = "connected"
		}
	}
	r.c.Fault("cancel-" + ph)
	close(r.cancelCh)
	r.cancl()
}

func (r *clientRun) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	i := len(r.recs)
	q := newRec()
	q.attempt = i
	q.dialAt = core.Now()
	r.recs = append(r.recs, q)
	r.c.Logf("dial %d %s", i, addr)
	q.name = fmt.Sprint(i)
	if r.idx > 0 {
		q.name = fmt.Sprintf("%c%d", 'a'+r.idx, i)
	}
	d := Dial{Out: "refuse"}
	extra := i >= len(r.p.Dials)
	if !extra {
		d = r.p.Dials[i]
	}
	q.out = d.Out
	q.plan = &d.Conn
	r.ev("dial")
	if extra {
		r.ev("extradial")
	}
	if i >= 3000 {
		// a loop that takes no time: let the run come to its end
		if i == 3000 {
			r.c.Fail("C11", "dial-loop", "connection attempt number %d at %v", i, core.Now())
		}
		select {}
	}
	lat := ms(d.LatMs)
	if d.Out == "hang" {
		lat = 127 * time.Second
		r.c.Fault("dial-hangs")
	}
	if lat > 0 {
		tm := time.NewTimer(lat)
		select {
		case <-tm.C:
		case <-ctx.Done():
			tm.Stop()
			q.dialDone, q.dialEnd = true, core.Now()
			r.c.Logf("dial %d aborted by the context", i)
			return nil, ctx.Err()
		}
	} else {
		runtime.Gosched()
	}
	q.dialDone, q.dialEnd = true, core.Now()
	switch d.Out {
	case "accept":
	case "unreach":
		r.c.Fault("dial-unreachable")
		r.ev("refused")
		return nil, simnet.ErrUnreachable
	case "hang":
		r.ev("refused")
		return nil, simnet.ErrTimedOut
	default:
		r.c.Fault("dial-refused")
		r.ev("refused")
		return nil, simnet.ErrRefused
	}
	q.cl, q.pn = r.net.Pair(d.Conn.Window)
	q.cl.SegmentReads = d.Conn.SegReads
	q.acceptAt = core.Now()
	q.cl.OnClose = func() {
		r.c.Logf("client closed connection %s", q.name)
		r.ev("clientclose")
		q.die()
	}
	r.c.Logf("accept %s", q.name)
	r.c.Go(fmt.Sprintf("panel%d", i), func() { q.serve(r.c, r.ev, 10*time.Second) })
	r.ev("accept")
	return q.cl, nil
}

// current is the connection attempt that holds an open client socket.
func (r *clientRun) current() *rec {
	for i := len(r.recs) - 1; i >= 0; i-- {
		if r.recs[i].pn != nil {
			return r.recs[i]
		}
	}
	return nil
}

func (r *clientRun) onConnect(errMsg string, binary bool, conn net.Conn) {
	r.c.Logf("onconnect(%q,%v)", errMsg, binary)
	var q *rec
	for _, x := range r.recs {
		if x.cl != nil && net.Conn(x.cl) == conn {
			q = x
		}
	}
	if q == nil {
		r.c.Fail("C11", "callback", "onconnect with a connection the client did not open")
		return
	}
	if q.onConnAt >= 0 {
		r.c.Fail("C11", "callback-order", "second onconnect for connection %s", q.name)
	}
	if r.lastCB == "connect" && !r.p.NilDiscCB {
		r.c.Fail("C11", "callback-order", "onconnect while the previous connect was not followed by a disconnect")
	}
	if r.lastCB == "disconnect(true)" {
		r.c.Fail("C11", "callback-order", "onconnect after a disconnect was reported as cancelled")
	}
	r.lastCB = "connect"
	q.onConnAt, q.connSeq = core.Now(), r.c.Seq()
	q.binary, q.errMsg = binary, errMsg
	r.connIdx = append(r.connIdx, q.attempt)
	if n := len(r.connIdx); n <= len(r.connCh) {
		close(r.connCh[n-1])
	}
	r.ev("onconnect")
	r.cbSleep(r.p.OnConnMs)
}

func (r *clientRun) onDisconnect(cancelled bool) {
	r.c.Logf("ondisconnect(%v)", cancelled)
	if r.lastCB != "connect" {
		if !r.p.NilConnCB {
			r.c.Fail("C11", "callback-order", "ondisconnect(%v) after %q, not after a connect", cancelled, r.lastCB)
		}
	}
	r.lastCB = fmt.Sprintf("disconnect(%v)", cancelled)
	if cancelled && r.cancelAt < 0 {
		r.c.Fail("C11", "disconnect-arg", "disconnect reported as cancelled although the context was not cancelled")
	}
	q := r.current()
	if q != nil && q.onDiscAt < 0 {
		q.onDiscAt, q.discSeq, q.discArg = core.Now(), r.c.Seq(), cancelled
	} else if q != nil && !r.p.NilConnCB {
		r.c.Fail("C11", "callback-order", "second ondisconnect for connection %s", q.name)
	}
	r.ev("ondisconnect")
	r.cbSleep(r.p.OnDiscMs)
}

func (r *clientRun) cbSleep(n int) {
	if n <= 0 {
		return
	}
	a := core.Now()
	i := len(r.cbSpans)
	r.cbSpans = append(r.cbSpans, span{a, a + ms(n)})
	r.c.Fault("slow-callback")
	time.Sleep(ms(n))
	r.cbSpans[i].b = core.Now()
}

func (r *clientRun) consume(ch <-chan []*rwp.OutboundMessage) {
	st := append([]Stall(nil), r.p.Consumer...)
	for {
		for len(st) > 0 && len(r.delivered) >= st[0].After {
			i := len(r.consSpans)
			a := core.Now()
			r.consSpans = append(r.consSpans, span{a, a + ms(st[0].Ms)})
			r.c.Fault("consumer-stall")
			time.Sleep(ms(st[0].Ms))
			r.consSpans[i].b = core.Now()
			st = st[1:]
		}
		select {
		case ms, ok := <-ch:
			if !ok {
				return
			}
			for _, m := range ms {
				d := delivery{at: core.Now(), msg: m}
				if m == nil {
					d.nilm = true
				} else {
					d.clone = proto.Clone(m).(*rwp.OutboundMessage)
				}
				r.delivered = append(r.delivered, d)
				r.c.Logf("delivered #%d", len(r.delivered)-1)
			}
			r.ev("recv")
		case <-r.stop:
			return
		}
	}
}

func (r *clientRun) submit(i int) {
	s := &r.p.Subs[i]
	if s.Conn >= 0 {
		if s.Conn >= len(r.connCh) || r.p.NilConnCB {
			return
		}
		select {
		case <-r.connCh[s.Conn]:
		case <-r.stop:
			return
		}
	}
	sleep := func(d time.Duration) bool {
		if d <= 0 {
			return true
		}
		select {
		case <-time.After(d):
			return true
		case <-r.stop:
			return false
		}
	}
	if !sleep(ms(s.DelayMs)) {
		return
	}
	for k := range s.Lists {
		l := &s.Lists[k]
		if !sleep(ms(l.GapMs)) {
			return
		}
		sub := &submission{sub: i, idx: k, msgs: l.Msgs, start: core.Now(), done: -1, seq: r.c.Seq()}
		r.subs = append(r.subs, sub)
		list := make([]*rwp.InboundMessage, 0, len(l.Msgs))
		for _, m := range l.Msgs {
			list = append(list, m.In(true))
			r.c.Traffic += uint64(proto.Size(list[len(list)-1]))
		}
		r.c.Logf("submit %d/%d", i, k)
		r.ev("sub")
		select {
		case r.subSend <- list:
			sub.done, sub.doneSeq = core.Now(), r.c.Seq()
			r.c.Logf("submitted %d/%d", i, k)
			r.ev("subdone")
		case <-r.stop:
			return
		}
	}
}

func (q *rec) die() {
	select {
	case <-q.deadCh:
	default:
		close(q.deadCh)
	}
}

// ---------------------------------------------------------------------------
// Checks over the recorded history
// ---------------------------------------------------------------------------

func (w *clientWorld) After(c *core.Ctx, plan any, res *runtime.SimResult) {
	runs := w.runs
	w.runs = nil
	if len(runs) == 0 {
		return
	}
	if !res.MainDone {
		c.Fail(c.Prop, "stuck", "the simulation stopped before the run was over")
		return
	}
	all := true
	for _, r := range runs {
		all = all && r.returned >= 0 && (r.p.NilWG || r.wgDone >= 0)
	}
	for _, r := range runs {
		if !all && r.returned >= 0 && (r.p.NilWG || r.wgDone >= 0) {
			r.leak = nil // another client's
		}
		r.checkReturn(res)
		r.checkConns()
		r.checkDelivery()
		r.checkWrites()
		r.checkTiming()
		if len(r.recs) > 0 {
			c.NonTriv = true
		}
	}
	runs[0].checkMemory()
}

// checkMemory: what a whole run allocates, harness included, is bounded by the
// traffic; a length prefix must not make the client reserve more.
func (r *clientRun) checkMemory() {
	c := r.c
	if c.Alloc > 64<<20+40*c.Traffic {
		c.Fail("C10", "memory", "far more was allocated than the traffic of the run explains (64 MB + 40 times its %d kB)", c.Traffic>>10)
		return
	}
	if c.Traffic > 1<<20 {
		for k := uint64(1); k <= 64; k *= 2 {
			if c.Alloc < k*c.Traffic {
				c.Probe(fmt.Sprintf("alloc-per-byte-under-%d", k))
				break
			}
		}
	}
	for k := uint64(1 << 20); k <= 256<<20; k *= 2 {
		if c.Alloc < k {
			c.Probe(fmt.Sprintf("alloc-under-%dMB", k>>20))
			break
		}
	}
}

func (r *clientRun) checkReturn(res *runtime.SimResult) {
	c := r.c
	if r.cancelAt < 0 && r.returned >= 0 {
		c.Fail("C11", "early-return", "ConnectToPanel returned at %v although the context was never cancelled", r.returned)
		return
	}
	slack := time.Duration(0)
	for _, s := range append(append([]span(nil), r.consSpans...), r.cbSpans...) {
		if s.b > r.cancelAt {
			a := s.a
			if a < r.cancelAt {
				a = r.cancelAt
			}
			slack += s.b - a
		}
	}
	bound := 8*time.Second + slack
	if r.returned < 0 {
		c.Fail("C11", "no-return", "ConnectToPanel has not returned %v after the cancellation (%s); goroutines left: %v", core12(r), r.cancelWhy, r.leak)
		return
	}
	if d := r.returned - r.cancelAt; d > bound {
		c.Fail("C11", "late-return", "ConnectToPanel returned %v after the cancellation (%s), bound %v", d, r.cancelWhy, bound)
	}
	if !r.p.NilWG {
		if r.wgDone >= 0 && r.wgAfterDial && r.returned > r.wgDone+time.Millisecond {
			c.Fail("C11", "wg-early", "the wait group drained at %v, but the call returned only at %v", r.wgDone, r.returned)
		}
		if r.wgDone < 0 {
			c.Fail("C11", "wait-group", "the wait group did not drain within 12 s of the cancellation (%s); goroutines left: %v", r.cancelWhy, r.leak)
		}
	}
	if len(r.leak) > 0 {
		c.Fail("C11", "goroutine-leak", "goroutines left after the call returned and the wait group drained: %v", r.leak)
	}
	for _, q := range r.recs {
		if q.cl != nil && (!q.cl.Closed() || q.cl.ClosedAt > r.returned+time.Millisecond) {
			c.Fail("C11", "socket-leak", "connection %s was not closed when the call returned", q.name)
		}
		if q.dialAt > r.returned {
			c.Fail("C11", "late-dial", "dial attempt %d after the call returned", q.attempt)
		}
	}
	if !r.p.NilDiscCB && r.lastCB == "connect" && !r.p.NilConnCB {
		c.Fail("C11", "callback-order", "the last callback is a connect: no disconnect was reported")
	}
	_ = res
}

func core12(r *clientRun) time.Duration { return 12 * time.Second }

// legitClose tells whether the client had a reason to close connection q.
func (r *clientRun) legitClose(q *rec) bool {
	at := q.cl.ClosedAt
	if r.cancelAt >= 0 && at >= r.cancelAt {
		return true
	}
	if q.panelEnd >= 0 && at >= q.panelEnd {
		return true
	}
	if q.brokenAt >= 0 && at >= q.brokenAt {
		return true
	}
	return q.mode == "any" || q.mode == ""
}

func (r *clientRun) checkConns() {
	c := r.c
	for _, q := range r.recs {
		if q.pn == nil {
			continue
		}
		b := q.sent()
		// --- the probe
		early := r.cancelAt >= 0 && r.cancelAt <= q.acceptAt
		if q.plan.Reply.Kind == "close" && q.plan.Reply.DelayMs == 0 {
			early = true
		}
		if len(b) == 0 && early || q.probeAt < 0 && q.panelEnd >= 0 && q.plan.Reply.Kind == "close" {
		} else if !isPingProbe(b) {
			c.Fail("C12", "probe", "conn %s: what the client wrote does not start with one length-prefixed ping: %s", q.name, hexcut(b))
		}
		if len(r.p.Subs) == 0 && q.probeAt >= 0 {
			rest := b[q.probeLen:]
			q.checkRest(c, rest, q.onConnAt >= 0)
		}
		// --- classification
		if q.onConnAt >= 0 {
			switch q.mode {
			case "bin":
				if !q.binary && !(q.panelEnd >= 0 && q.replyEnd < 0) && q.replyEnd >= 0 {
					c.Fail("C12", "class-binary", "conn %s: panel answered with an acknowledge frame (complete %v after the probe) but is treated as ASCII", q.name, q.replyEnd-q.probeAt)
				}
			case "ascii":
				if q.binary {
					c.Fail("C12", "class-ascii", "conn %s: panel answered %s but is treated as binary", q.name, q.plan.Reply.describe())
				}
			}
			if q.mode == "ascii" && q.errText != "" && q.replyEnd >= 0 && q.replyEnd < q.onConnAt+1 {
				if strings.TrimRight(q.errMsg, "\r") != strings.TrimRight(q.errText, "\r") {
					c.Fail("C12", "error-text", "conn %s: panel reported error %q, onconnect got %q", q.name, q.errText, q.errMsg)
				}
			} else if q.plan.Reply.Kind != "err" && q.errMsg != "" {
				c.Fail("C12", "error-text", "conn %s: onconnect got error text %q, panel sent none", q.name, q.errMsg)
			}
		}
		// --- closing
		if q.cl.Closed() && !r.legitClose(q) {
			c.Fail(c.Prop, "closed-healthy", "the client closed connection %s at %v although the panel was alive, its stream valid and the context not cancelled", q.name, q.cl.ClosedAt)
		}
	}
}

func (rp *Reply) describe() string {
	b, _ := rp.bytes()
	if len(b) == 0 {
		return rp.Kind
	}
	return fmt.Sprintf("%s %q", rp.Kind, string(b))
}

// checkRest: what follows the probe when nothing was submitted.
func (q *rec) checkRest(c *core.Ctx, rest []byte, connected bool) {
	switch q.mode {
	case "bin":
		if len(rest) != 0 && q.replyEnd >= 0 {
			c.Fail("C12", "extra-bytes", "conn %s: binary panel received %s after the probe", q.name, hexcut(rest))
		}
	case "ascii":
		ok := string(rest) == "\n"
		if len(rest) == 0 && !connected {
			ok = true
		}
		if len(rest) == 0 && q.panelEnd >= 0 {
			ok = true // the write failed
		}
		if !ok {
			c.Fail("C12", "line-feed", "conn %s: ASCII panel (%s) received %s after the probe, want exactly one line feed", q.name, q.plan.Reply.describe(), hexcut(rest))
		}
	}
}

// stalledAt tells whether the consumer or a callback held up the client at t.
func (r *clientRun) stalledAt(t time.Duration) bool {
	for _, s := range r.consSpans {
		if s.a <= t && s.b >= t {
			return true
		}
	}
	for _, s := range r.cbSpans {
		if s.a <= t && s.b >= t {
			return true
		}
	}
	return false
}

func (r *clientRun) stallIn(a, b time.Duration) time.Duration {
	var t time.Duration
	for _, s := range append(append([]span(nil), r.consSpans...), r.cbSpans...) {
		x, y := s.a, s.b
		if x < a {
			x = a
		}
		if y > b {
			y = b
		}
		if y > x {
			t += y - x
		}
	}
	return t
}

// --- delivery: the delivered sequence against the expected one -------------

type enode struct {
	e    *el                    // nil: a set of optional messages (self loop)
	opt  []*rwp.OutboundMessage //
	skip bool
	jump int // >=0: may go there without anything being delivered
}

func (r *clientRun) checkDelivery() {
	c := r.c
	prop := c.Prop
	if prop != "C08" && prop != "C10" && prop != "C11" {
		prop = "C08"
	}
	var nodes []enode
	stalledAtCancel := r.cancelAt >= 0 && r.stalledAt(r.cancelAt)
	for _, q := range r.recs {
		if q.pn == nil {
			continue
		}
		if len(q.optional) > 0 {
			nodes = append(nodes, enode{opt: q.optional, skip: true, jump: -1})
		}
		start := len(nodes)
		for _, e := range q.exp {
			n := enode{e: e, skip: e.wild || e.opt, jump: -1}
			if e.at < 0 || (r.cancelAt >= 0 && (e.at >= r.cancelAt || stalledAtCancel)) {
				n.jump = 0
			}
			nodes = append(nodes, n)
		}
		for i := start; i < len(nodes); i++ {
			if nodes[i].jump == 0 {
				nodes[i].jump = len(nodes)
			}
		}
	}
	// set of states
	cur := map[int]bool{}
	var closure func(s map[int]bool, p int)
	closure = func(s map[int]bool, p int) {
		if s[p] {
			return
		}
		s[p] = true
		if p < len(nodes) {
			if nodes[p].skip {
				closure(s, p+1)
			}
			if nodes[p].jump > p {
				closure(s, nodes[p].jump)
			}
		}
	}
	closure(cur, 0)
	for i, d := range r.delivered {
		if d.nilm {
			c.Fail(prop, "delivery-nil", "delivered message #%d is nil", i)
			return
		}
		if !proto.Equal(d.msg, d.clone) {
			c.Fail(prop, "delivery-altered", "delivered message #%d changed after it was delivered", i)
		}
		next := map[int]bool{}
		best := -1
		for p := 0; p <= len(nodes); p++ {
			if !cur[p] || p == len(nodes) {
				continue
			}
			n := &nodes[p]
			if n.e == nil {
				for _, o := range n.opt {
					if proto.Equal(o, d.clone) {
						closure(next, p)
					}
				}
				continue
			}
			if best < 0 || p > best {
				best = p
			}
			if n.e.at >= 0 && d.at < n.e.at {
				continue // cannot be delivered before it was sent
			}
			if n.e.wild || proto.Equal(n.e.msg, d.clone) {
				closure(next, p+1)
			}
		}
		if len(next) == 0 {
			want := "nothing"
			for p := 0; p < len(nodes); p++ {
				if cur[p] && nodes[p].e != nil {
					want = fmt.Sprintf("conn %d %s %s", nodes[p].e.conn, nodes[p].e.what, short(nodes[p].e.msg))
					break
				}
			}
			c.Fail(prop, "delivery-wrong", "delivered message #%d is %s, expected %s", i, short(d.clone), want)
			return
		}
		cur = next
	}
	if !cur[len(nodes)] {
		for p := 0; p < len(nodes); p++ {
			if cur[p] && nodes[p].e != nil && !nodes[p].skip {
				e := nodes[p].e
				c.Fail(prop, "delivery-missing", "message of conn %d (%s %s), sent completely at %v, was never delivered (%d messages were)", e.conn, e.what, short(e.msg), e.at, len(r.delivered))
				return
			}
		}
	}
}

func short(m *rwp.OutboundMessage) string {
	if m == nil {
		return "<any>"
	}
	s := m.String()
	if len(s) > 160 {
		s = fmt.Sprintf("%s... (%d bytes)", s[:160], proto.Size(m))
	}
	if s == "" {
		s = "<empty message>"
	}
	return s
}

// --- timing of the lifecycle ------------------------------------------------

func (r *clientRun) checkTiming() {
	c := r.c
	end := r.cancelAt
	if end < 0 {
		return
	}
	lost := func(q *rec) (time.Duration, string) {
		t, k := time.Duration(-1), ""
		if q.panelEnd >= 0 {
			t, k = q.panelEnd, q.panelEndK
		}
		if q.brokenAt >= 0 && (t < 0 || q.brokenAt < t) {
			t, k = q.brokenAt, q.brokenK
		}
		return t, k
	}
	for i, q := range r.recs {
		if !q.dialDone {
			continue
		}
		var next *rec
		if i+1 < len(r.recs) {
			next = r.recs[i+1]
		}
		if q.pn == nil {
			// nobody there: the retry period
			if next != nil {
				if w := next.dialAt - q.dialEnd; w > r.p.noConn()+500*time.Millisecond {
					c.Fail("C11", "retry-late", "dial %d failed at %v, the next attempt came %v later (period %v)", i, q.dialEnd, w, r.p.noConn())
				} else if w < r.p.noConn() && len(r.p.Subs) == 0 && next.dialAt < end {
					c.Fail("C11", "retry-early", "dial %d failed at %v, the next attempt came only %v later (period %v)", i, q.dialEnd, w, r.p.noConn())
				}
			} else if end-q.dialEnd > r.p.noConn()+500*time.Millisecond {
				c.Fail("C11", "retry-never", "dial %d failed at %v and was not repeated until the cancellation at %v (period %v)", i, q.dialEnd, end, r.p.noConn())
			}
			continue
		}
		if next != nil && (!q.cl.Closed() || q.cl.ClosedAt > next.dialAt) {
			c.Fail("C11", "overlap", "connection %d was still open when attempt %d was made", i, i+1)
		}
		lostAt, kind := lost(q)
		// how long the connection can take to be declared
		negMax := 2500 * time.Millisecond
		if !r.p.NilConnCB {
			due := q.acceptAt + negMax
			lim := due + r.stallIn(q.acceptAt, due+time.Hour)
			if q.onConnAt < 0 && end > lim && q.mode != "any" && q.brokenAt < 0 && q.panelEnd < 0 {
				c.Fail("C11", "no-onconnect", "conn %d was accepted at %v and is healthy, but no connect was reported until %v", i, q.acceptAt, end)
			}
			if q.onConnAt >= 0 && q.onConnAt > lim {
				c.Fail("C11", "late-onconnect", "conn %d was accepted at %v, connect was reported at %v", i, q.acceptAt, q.onConnAt)
			}
			if q.onConnAt >= 0 && q.mode == "bin" && q.plan.Reply.Kind == "ack" && q.replyEnd >= 0 && q.onConnAt < q.replyEnd {
				c.Fail("C12", "early", "conn %d was reported before the acknowledge was complete", i)
			}
			if q.onConnAt >= 0 && q.mode == "ascii" && q.plan.Reply.Kind == "silent" && q.panelEnd < 0 && q.onConnAt < q.acceptAt+1900*time.Millisecond {
				c.Fail("C12", "early", "conn %d: silent panel declared %v after the probe; the probe window is 2 s", i, q.onConnAt-q.acceptAt)
			}
		}
		if lostAt < 0 {
			// healthy until the cancellation: it must be reported as cancelled
			if q.onDiscAt >= 0 && q.mode != "any" && q.onConnAt >= 0 && q.onConnAt < end && !q.discArg && q.onDiscAt >= end {
				c.Fail("C11", "disconnect-arg", "conn %d was healthy when the context was cancelled, but the disconnect was reported as not cancelled", i)
			}
			continue
		}
		if lostAt >= end {
			continue
		}
		// lost before the cancellation
		react := 1500 * time.Millisecond // an ASCII client may linger for a second on EOF
		prop := "C11"
		switch kind {
		case "over":
			prop = "C10"
			react = time.Second
		case "stall":
			prop = "C10"
			react = 2500 * time.Millisecond
		}
		base := lostAt
		if m := q.acceptAt + negMax; base < m && (q.onConnAt < 0 || q.onConnAt > base || kind == "fin" || kind == "rst") && q.replyEnd < 0 {
			base = m // lost during the negotiation
		}
		if q.onConnAt > base {
			base = q.onConnAt
		}
		limit := base + react
		limit += r.stallIn(lostAt-5*time.Second, limit+time.Hour)
		if end > limit {
			if !q.cl.Closed() || q.cl.ClosedAt > limit {
				c.Fail(prop, "late-drop", "conn %d (%s at %v) was not closed by the client until %v", i, kind, lostAt, q.closedAt())
			}
			if !r.p.NilDiscCB && !r.p.NilConnCB && q.onConnAt >= 0 {
				lim2 := limit + 500*time.Millisecond
				if end > lim2 && (q.onDiscAt < 0 || q.onDiscAt > lim2) {
					c.Fail(prop, "late-disconnect", "conn %d (%s at %v): no disconnect reported by %v (got %v)", i, kind, lostAt, lim2, q.onDiscAt)
				}
			}
		}
		if q.onDiscAt >= 0 && q.onDiscAt < end && q.discArg {
			c.Fail(prop, "disconnect-arg", "conn %d (%s) was reported as cancelled before the cancellation", i, kind)
		}
		// reconnect after the configured period
		hi := limit + r.p.reConn() + time.Second + ms(r.p.OnDiscMs)
		if next != nil {
			if next.dialAt < end && next.dialAt < lostAt+r.p.reConn() {
				c.Fail("C11", "reconnect-early", "conn %d was lost at %v, reconnect attempt at %v (period %v)", i, lostAt, next.dialAt, r.p.reConn())
			}
			if next.dialAt > hi {
				c.Fail(prop, "reconnect-late", "conn %d was lost at %v (%s), reconnect attempt only at %v (period %v)", i, lostAt, kind, next.dialAt, r.p.reConn())
			}
		} else if end > hi {
			c.Fail(prop, "reconnect-never", "conn %d was lost at %v (%s), no reconnect attempt until %v (period %v)", i, lostAt, kind, end, r.p.reConn())
		}
	}
}

var _ = errors.Is
