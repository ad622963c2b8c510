package worlds

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"

	"vsim/core"
	"vsim/simnet"
)

// ---------------------------------------------------------------------------
// Scripted panels: plan types, the timed byte stream they send, and the record
// of what they received.
// ---------------------------------------------------------------------------

// Cut splits an item's bytes at Off (modulo its length); the bytes after the
// cut leave Ms later.
type Cut struct {
	Off int
	Ms  int
}

// Item is one thing a panel sends (or does).
type Item struct {
	Kind  string // msg, raw, garbage, emptyframe, over, stall, partial, fin, rst, halfclose
	GapMs int    // silence before it
	Join  bool   // leaves in the same segment as the end of the item before
	Msg   MsgSpec
	Cuts  []Cut
	Drib  int    // >0: leaves in segments of this many bytes
	CR    bool   // ASCII: CRLF instead of LF
	Hdr   uint32 // over: value of the length prefix
	Cut   int    // stall/partial: number of bytes that leave
	Fill  int    // over: valid frames that follow the header
}

// Stall pauses a party after it has handled After units, for Ms.
type Stall struct {
	After int
	Ms    int
}

// Reply is the panel's answer to the probe.
type Reply struct {
	Kind     string // ack, frame, silent, rdy, map, err, text, close
	DelayMs  int
	Cuts     []Cut
	Text     string
	Term     string // "", "\n", "\r\n"
	Extra    int    // map: further map lines
	A, B     int    // map: what the first one says (0, 0: 3 and 7)
	Close    string // "", fin, rst: after the reply
	CloseMs  int
	JoinNext bool // ack: the first item leaves in the same segment
	Early    int  // rdy, map: that many items are sent without waiting for the line feed
	AckX     int  // ack: how the frame is made, see ackPayload
	AckN     int
}

// Conn is the behaviour of one accepted connection.
type Conn struct {
	Reply    Reply
	Items    []Item
	Window   int
	Stalls   []Stall // the panel stops reading (After = bytes received)
	NoRead   bool    // the panel never reads after the probe
	SegReads bool
	AfterMs  int // what the panel does after its script: wait, then close (0: stay)
}

// Dial is the outcome of one connection attempt.
type Dial struct {
	Out   string // accept, refuse, unreach, hang
	LatMs int
	Conn  Conn
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// frame is a length-prefixed message.
func frame(payload []byte) []byte {
	b := make([]byte, 4+len(payload))
	binary.LittleEndian.PutUint32(b, uint32(len(payload)))
	copy(b[4:], payload)
	return b
}

func mustMarshal(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// seg is one timed segment of a panel's stream.
type seg struct {
	gap  time.Duration
	data []byte
	done []func() // called when the segment has been sent
	end  string   // "", fin, rst, halfclose: what to do instead of sending
}

type stream struct{ segs []seg }

// add appends an item's bytes with its cuts.
func (s *stream) add(b []byte, gap time.Duration, join bool, cuts []Cut, drib int, done func()) {
	type piece struct {
		gap time.Duration
		b   []byte
	}
	var ps []piece
	if len(b) == 0 {
		if done != nil {
			if len(s.segs) > 0 && join {
				s.segs[len(s.segs)-1].done = append(s.segs[len(s.segs)-1].done, done)
			} else {
				s.segs = append(s.segs, seg{gap: gap, done: []func(){done}})
			}
		}
		return
	}
	if drib > 0 {
		for i := 0; i < len(b); i += drib {
			j := i + drib
			if j > len(b) {
				j = len(b)
			}
			ps = append(ps, piece{0, b[i:j]})
		}
	} else {
		offs := map[int]int{}
		for _, c := range cuts {
			o := abs(c.Off) % len(b)
			if o == 0 {
				continue
			}
			offs[o] = c.Ms
		}
		keys := make([]int, 0, len(offs))
		for o := range offs {
			keys = append(keys, o)
		}
		sort.Ints(keys)
		last := 0
		var g time.Duration
		for _, o := range keys {
			ps = append(ps, piece{g, b[last:o]})
			last = o
			g = ms(offs[o])
		}
		ps = append(ps, piece{g, b[last:]})
	}
	ps[0].gap = gap
	for i, p := range ps {
		if i == 0 && join && gap == 0 && len(s.segs) > 0 && s.segs[len(s.segs)-1].end == "" {
			l := &s.segs[len(s.segs)-1]
			l.data = append(append([]byte(nil), l.data...), p.b...)
		} else {
			s.segs = append(s.segs, seg{gap: p.gap, data: p.b})
		}
	}
	if done != nil {
		l := &s.segs[len(s.segs)-1]
		l.done = append(l.done, done)
	}
}

// cutTotal is the time an item takes from its first to its last byte.
func cutTotal(cuts []Cut) int {
	t := 0
	for _, c := range cuts {
		t += c.Ms
	}
	return t
}

// el is one expected delivery.
type el struct {
	msg   *rwp.OutboundMessage
	wild  bool // anything (a garbage payload's leftovers), 0 or 1
	opt   bool // may be missing
	conn  int
	at    time.Duration // when its last byte was sent (-1: never)
	what  string
	trunc bool // at or after the cancellation: may be missing with all that follow
}

type rxMark struct {
	n  int
	at time.Duration
}

// rec is what happened on one connection attempt.
type rec struct {
	attempt  int
	name     string
	dialAt   time.Duration
	dialEnd  time.Duration
	dialDone bool
	out      string
	plan     *Conn
	cl, pn   *simnet.Conn

	acceptAt   time.Duration
	rx         []byte
	marks      []rxMark
	probeAt    time.Duration // -1
	probeLen   int
	lfAt       time.Duration // -1
	replyAt    time.Duration // first byte, -1
	replyEnd   time.Duration // last byte, -1
	mode       string        // expected: bin, ascii, any
	errText    string
	exp        []*el
	optional   []*rwp.OutboundMessage // reply-derived messages that may be delivered first
	panelEnd   time.Duration          // -1
	panelEndK  string
	brokenAt   time.Duration // -1
	brokenK    string
	scriptDone bool
	stallEnd   time.Duration
	stalling   bool
	sendFailAt time.Duration // -1: time at which a send failed because the client had closed
	sentSegs   int

	probeCh, lfCh, deadCh chan struct{}
	onRx                  func()
	dynStalls             []Stall

	onConnAt, onDiscAt time.Duration // -1
	binary             bool
	errMsg             string
	discArg            bool
	connSeq, discSeq   uint64
}

func newRec() *rec {
	return &rec{probeAt: -1, lfAt: -1, replyAt: -1, replyEnd: -1, panelEnd: -1, brokenAt: -1, onConnAt: -1, onDiscAt: -1, sendFailAt: -1,
		probeCh: make(chan struct{}), lfCh: make(chan struct{}), deadCh: make(chan struct{})}
}

// readLoop is the panel's receiving side.
func (r *rec) readLoop(c *core.Ctx) {
	buf := make([]byte, 64<<10)
	st := append([]Stall(nil), r.plan.Stalls...)
	for {
		if len(r.dynStalls) > 0 {
			st, r.dynStalls = append(st, r.dynStalls...), nil
		}
		if r.probeAt >= 0 {
			if r.plan.NoRead {
				r.stalling = true
				r.stallEnd = 1 << 60
				c.Fault("panel-never-reads")
				<-r.deadCh
				return
			}
			for len(st) > 0 && len(r.rx) >= st[0].After {
				r.stalling = true
				c.Fault("panel-stops-reading")
				time.Sleep(ms(st[0].Ms))
				r.stalling = false
				r.stallEnd = core.Now()
				st = st[1:]
			}
		}
		n, err := r.pn.Read(buf)
		if n > 0 {
			r.rx = append(r.rx, buf[:n]...)
			c.Traffic += uint64(n)
			r.marks = append(r.marks, rxMark{len(r.rx), core.Now()})
			c.Logf("panel%s rx %d bytes h=%x", r.name, n, core.HashString(string(buf[:n])))
			if r.probeAt < 0 && len(r.rx) >= 4 {
				l := int(binary.LittleEndian.Uint32(r.rx))
				if l >= 0 && l < 1<<16 && len(r.rx) >= 4+l {
					r.probeAt = core.Now()
					r.probeLen = 4 + l
					close(r.probeCh)
				}
			}
			if r.probeAt >= 0 && r.lfAt < 0 && len(r.rx) > r.probeLen && r.rx[r.probeLen] == '\n' {
				r.lfAt = core.Now()
				close(r.lfCh)
			}
			if r.onRx != nil {
				r.onRx()
			}
		}
		if err != nil {
			select {
			case <-r.deadCh:
			default:
				close(r.deadCh)
			}
			return
		}
	}
}

// play sends a stream; it stops early when the client has closed.
func (r *rec) play(c *core.Ctx, s *stream, onSeg func()) bool {
	for i := range s.segs {
		sg := &s.segs[i]
		if sg.gap > 0 {
			time.Sleep(sg.gap)
			if sg.gap > 2*time.Second {
				c.Fault("idle-gap>2s")
			}
		} else if i > 0 {
			runtime.Gosched()
		}
		if r.pn.PeerClosed() || r.pn.Closed() {
			if r.sendFailAt < 0 {
				r.sendFailAt = core.Now()
			}
			return false
		}
		switch sg.end {
		case "fin":
			c.Fault("panel-fin")
			r.panelEnd, r.panelEndK = core.Now(), "fin"
			c.Logf("panel%s close", r.name)
			r.pn.Close()
			return false
		case "rst":
			c.Fault("panel-rst")
			r.panelEnd, r.panelEndK = core.Now(), "rst"
			c.Logf("panel%s reset", r.name)
			r.pn.Reset()
			return false
		case "halfclose":
			c.Fault("panel-halfclose")
			r.panelEnd, r.panelEndK = core.Now(), "fin"
			c.Logf("panel%s half-close", r.name)
			r.pn.CloseWrite()
			continue
		}
		if len(sg.data) > 0 {
			if !r.pn.Send(sg.data) {
				if r.sendFailAt < 0 {
					r.sendFailAt = core.Now()
				}
				return false
			}
			r.sentSegs++
			c.Traffic += uint64(len(sg.data))
			c.Logf("panel%s tx %d bytes h=%x", r.name, len(sg.data), core.HashString(string(sg.data[:min(len(sg.data), 64)])))
		}
		for _, f := range sg.done {
			f()
		}
		if onSeg != nil {
			onSeg()
		}
	}
	return true
}

// capCuts bounds the time spent in the header and the time spent in the payload
// of a frame of n bytes: either stays below 2 s.
func capCuts(cuts []Cut, n int) []Cut {
	var out []Cut
	left := [2]int{1900, 1900}
	for _, c := range cuts {
		k := 0
		if abs(c.Off)%n >= 4 {
			k = 1
		}
		core.Clamp(&c.Ms, 0, left[k])
		left[k] -= c.Ms
		out = append(out, c)
	}
	return out
}

// buildItems turns the items of a connection into a stream, filling r.exp.
func (r *rec) buildItems(c *core.Ctx, s *stream, items []Item, bin bool) {
	for i := range items {
		it := items[i]
		add := func(b []byte, msgs []*rwp.OutboundMessage, wild, opt bool, what string) {
			var els []*el
			for _, m := range msgs {
				e := &el{msg: m, conn: r.attempt, at: -1, what: what, opt: opt}
				els = append(els, e)
				r.exp = append(r.exp, e)
			}
			if wild {
				e := &el{wild: true, conn: r.attempt, at: -1, what: what}
				els = append(els, e)
				r.exp = append(r.exp, e)
			}
			cuts := it.Cuts
			if bin {
				cuts = capCuts(cuts, len(b))
			}
			s.add(b, ms(it.GapMs), it.Join, cuts, it.Drib, func() {
				for _, e := range els {
					e.at = core.Now()
				}
			})
			if len(it.Cuts) > 0 || it.Drib > 0 {
				c.Fault("segmented")
			}
			if it.Join {
				c.Fault("coalesced")
			}
		}
		switch it.Kind {
		case "msg":
			if bin {
				m := it.Msg.Out()
				add(frame(mustMarshal(m)), []*rwp.OutboundMessage{m}, false, false, it.Msg.K)
			} else {
				lines, msgs := it.Msg.Lines()
				term := "\n"
				if it.CR {
					term = "\r\n"
				}
				add([]byte(strings.Join(lines, term)+term), msgs, false, false, it.Msg.K)
			}
		case "emptyframe":
			if bin {
				c.Fault("empty-frame")
				var b []byte
				switch abs(it.Msg.N) % 4 {
				case 1:
					b = []byte{8, 0} // the default, spelled out
				case 2:
					b = []byte{8, 1, 8, 0}
				}
				add(frame(b), []*rwp.OutboundMessage{{}}, false, c.Prop == "C10", "empty frame")
			}
		case "garbage":
			if bin {
				c.Fault("garbage-payload")
				n := abs(it.Msg.N)%2000 + 1
				if abs(it.Msg.S)%128 == 1 && it.Drib == 0 {
					n = 499999 - abs(it.Msg.N)%1500 // up to the limit
				}
				add(frame(garbage(it.Msg.S, n)), nil, true, false, "garbage frame")
			}
		case "partial":
			// some bytes of a message and nothing more (a close follows)
			var b []byte
			if bin {
				b = frame(mustMarshal(it.Msg.Out()))
			} else {
				lines, _ := it.Msg.Lines()
				b = []byte(strings.Join(lines, "\n"))
			}
			k := abs(it.Cut) % (len(b) + 1)
			if bin && k == len(b) {
				k = len(b) - 1
			}
			c.Fault("partial-frame")
			s.add(b[:k], ms(it.GapMs), it.Join, it.Cuts, it.Drib, nil)
		case "over":
			h := make([]byte, 4)
			v := it.Hdr
			if v < 500000 {
				v = 500000
			}
			binary.LittleEndian.PutUint32(h, v)
			c.Fault("over-limit-header")
			s.add(h, ms(it.GapMs), it.Join, it.Cuts, it.Drib, func() { r.brokenAt, r.brokenK = core.Now(), "over" })
			for k := 0; k < it.Fill; k++ {
				m := MsgSpec{K: "down", UID: 700000 + i*100 + k}.Out()
				s.add(frame(mustMarshal(m)), 0, k == 0 && it.Join, nil, 0, nil)
			}
			// Some of the announced bytes follow: valid frames, so that a reader
			// that goes on would deliver them.
			return
		case "stall":
			var inner []byte
			for k := 0; k < 3; k++ {
				inner = append(inner, frame(mustMarshal(MsgSpec{K: "down", UID: 800000 + i*100 + k}.Out()))...)
			}
			rest := mustMarshal(it.Msg.Out())
			if len(inner)+len(rest) >= 500000 {
				rest = rest[:499999-len(inner)] // a frame within the limit
			}
			b := frame(append(inner, rest...))
			k := 1 + abs(it.Cut)%(len(b)-1)
			if k < 4 {
				c.Fault("stall-in-header")
			} else if k == 4 {
				c.Fault("stall-after-header")
			} else {
				c.Fault("stall-in-payload")
			}
			s.add(b[:k], ms(it.GapMs), it.Join, it.Cuts, it.Drib, func() { r.brokenAt, r.brokenK = core.Now(), "stall" })
			// much later the rest arrives, should anybody still listen
			s.add(b[k:], 6*time.Second, false, nil, 0, nil)
			return
		case "fin", "rst", "halfclose":
			s.segs = append(s.segs, seg{gap: ms(it.GapMs), end: it.Kind})
			return
		}
	}
}

// garbage is a payload that is not a valid message but contains valid frames.
func garbage(seed, n int) []byte {
	r := core.NewRng(uint64(seed)*13 + 5)
	b := make([]byte, 0, n)
	mode := r.N(3)
	for len(b) < n {
		switch mode {
		case 0:
			b = append(b, byte(r.U64()))
		case 1:
			b = append(b, frame(mustMarshal(MsgSpec{K: "down", UID: 900000 + r.N(1000)}.Out()))...)
		case 2:
			b = append(b, 0xff)
		}
	}
	b = b[:n]
	if proto.Unmarshal(b, &rwp.OutboundMessage{}) == nil {
		b[n-1] = 0x07 // wire type 7: never valid
		if proto.Unmarshal(b, &rwp.OutboundMessage{}) == nil {
			for i := range b {
				b[i] = 0xff
			}
		}
	}
	return b
}

// ackPayload is an acknowledge: the plain one, or one that is encoded in
// another way or says more.
func (rp *Reply) ackPayload() []byte {
	m := &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK}
	switch rp.AckX {
	case 1: // a field the library does not know comes first
		b := protowire.AppendTag(nil, 3000, protowire.BytesType)
		return append(protowire.AppendBytes(b, bytes.Repeat([]byte{'u'}, rp.AckN)), mustMarshal(m)...)
	case 2: // not the shortest encoding
		return []byte{0x08, 0x80 | byte(rwp.OutboundMessage_ACK), 0x80, 0x00}
	case 3: // said twice
		return append([]byte{0x08, byte(rwp.OutboundMessage_PING)}, mustMarshal(m)...)
	case 4:
		m.PanelInfo = &rwp.PanelInfo{Model: filler(rp.AckN, rp.AckN)}
	case 5:
		m.Events = []*rwp.HWCEvent{{HWCID: uint32(rp.AckN), Binary: &rwp.BinaryEvent{Pressed: true}}}
	}
	return mustMarshal(m)
}

// replyBytes is what the panel answers to the probe, and the mode that means.
func (rp *Reply) bytes() (b []byte, mode string) {
	switch rp.Kind {
	case "ack":
		return frame(rp.ackPayload()), "bin"
	case "frame":
		return frame(mustMarshal(&rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: "Z"}})), "any"
	case "rdy":
		return []byte("RDY" + rp.term()), "ascii"
	case "map":
		a, b := uint32(rp.A), uint32(rp.B)
		if a == 0 && b == 0 {
			a, b = 3, 7
		}
		s := fmt.Sprintf("map=%d:%d%s", a, b, rp.term())
		for i := 0; i < rp.Extra; i++ {
			s += fmt.Sprintf("map=%d:%d%s", i+4, i, rp.term())
		}
		return []byte(s), "ascii"
	case "err":
		return []byte("ErrorMsg=" + rp.Text + rp.Term), "ascii"
	case "text":
		return []byte(rp.Text + rp.Term), "ascii"
	}
	return nil, "ascii"
}

func (rp *Reply) term() string {
	if rp.Term == "" {
		return "\n"
	}
	return rp.Term
}

// serve runs the panel's side of one connection.
func (r *rec) serve(c *core.Ctx, ev func(string), maxWait time.Duration) {
	defer func() { r.scriptDone = true; ev("scriptdone") }()
	c.Go(fmt.Sprintf("panelread%s", r.name), func() { r.readLoop(c) })
	rp := &r.plan.Reply
	if rp.Kind == "close" && rp.DelayMs == 0 {
		// closes before it has seen the probe
		r.mode = "any"
		var s stream
		s.segs = append(s.segs, seg{end: orS(rp.Close, "fin")})
		c.Fault("close-at-accept")
		r.play(c, &s, nil)
		return
	}
	select {
	case <-r.probeCh:
	case <-r.deadCh:
		return
	case <-time.After(10 * time.Second):
		c.Fail("C12", "no-probe", "conn %s: no complete probe frame within 10 s of the connection; received % x", r.name, r.rx)
		return
	}
	ev("probe")
	b, mode := rp.bytes()
	r.mode = mode
	var s stream
	switch rp.Kind {
	case "silent":
		c.Fault("silent-panel")
	case "close":
		r.mode = "any"
		c.Fault("close-in-negotiation")
		s.segs = append(s.segs, seg{gap: ms(rp.DelayMs), end: orS(rp.Close, "fin")})
	default:
		s.add(b, ms(rp.DelayMs), false, rp.Cuts, 0, func() { r.replyEnd = core.Now() })
		s.segs[0].done = append([]func(){func() { r.replyAt = core.Now() }}, s.segs[0].done...)
		if len(rp.Cuts) > 0 {
			c.Fault("segmented-reply")
		}
		if rp.Kind == "err" {
			r.errText = rp.Text
		}
		if rp.Kind == "rdy" || rp.Kind == "map" || rp.Kind == "text" || rp.Kind == "err" {
			r.optional = append(r.optional, optionalFrom(string(b))...)
		}
		if rp.Close != "" {
			s.segs = append(s.segs, seg{gap: ms(rp.CloseMs), end: rp.Close})
			c.Fault("close-after-reply")
		}
	}
	if rp.Kind == "ack" && rp.Close == "" {
		items := r.plan.Items
		if len(items) > 0 {
			first := items[0]
			first.Join = rp.JoinNext
			if rp.JoinNext {
				first.GapMs = 0
				c.Fault("coalesced-with-ack")
			}
			items = append([]Item{first}, items[1:]...)
		}
		r.buildItems(c, &s, items, true)
		r.play(c, &s, func() { ev("item") })
	} else {
		items := r.plan.Items
		if n := rp.early(items); n > 0 {
			first := append([]Item{}, items[:n]...)
			first[0].Join = rp.JoinNext
			if rp.JoinNext {
				first[0].GapMs = 0
			}
			r.buildItems(c, &s, first, false)
			items = items[n:]
			c.Fault("before-line-feed")
		}
		if !r.play(c, &s, func() { ev("item") }) {
			return
		}
		if rp.Kind == "frame" {
			return
		}
		select {
		case <-r.lfCh:
		case <-r.deadCh:
			return
		case <-time.After(10 * time.Second):
			if !r.plan.NoRead && len(r.plan.Stalls) == 0 {
				c.Fail("C12", "no-lf", "conn %s (%s): no line feed after the probe within 10 s", r.name, rp.Kind)
			}
			return
		}
		var s2 stream
		r.buildItems(c, &s2, items, false)
		r.play(c, &s2, func() { ev("item") })
	}
}

// early is how many of the items follow the reply at once.
func (rp *Reply) early(items []Item) int {
	if rp.Kind != "rdy" && rp.Kind != "map" || rp.Close != "" {
		return 0
	}
	n := 0
	for n < rp.Early && n < len(items) && items[n].Kind == "msg" {
		n++
	}
	return n
}

// optionalFrom lists what a client that treats the reply text as the first
// lines of the stream (or as what is left of them) may deliver.
func optionalFrom(s string) []*rwp.OutboundMessage {
	var out []*rwp.OutboundMessage
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "RDY" {
			out = append(out, &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_RDY})
		}
		var a, b uint32
		if n, _ := fmt.Sscanf(l, "map=%d:%d", &a, &b); n == 2 {
			out = append(out, &rwp.OutboundMessage{HWCavailability: map[uint32]uint32{a: b}})
		}
		if strings.HasPrefix(l, "ErrorMsg=") {
			out = append(out, &rwp.OutboundMessage{ErrorMessage: &rwp.Message{Message: l[9:]}})
		}
	}
	// anything else it might make of it: an empty message
	out = append(out, &rwp.OutboundMessage{})
	return out
}

func orS(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// isPingProbe checks that b starts with exactly one length-prefixed ping.
func isPingProbe(b []byte) bool {
	if len(b) < 5 {
		return false
	}
	l := int(binary.LittleEndian.Uint32(b))
	if l <= 0 || l > len(b)-4 {
		return false
	}
	m := &rwp.InboundMessage{}
	if proto.Unmarshal(b[4:4+l], m) != nil {
		return false
	}
	return proto.Equal(m, &rwp.InboundMessage{FlowMessage: rwp.InboundMessage_PING})
}

// closedFor reports when the client closed its end (-1: never).
func (r *rec) closedAt() time.Duration {
	if r.cl == nil || !r.cl.Closed() {
		return -1
	}
	return r.cl.ClosedAt
}

// stream after the probe (and LF), including what sits unread in the socket
func (r *rec) sent() []byte {
	b := append([]byte(nil), r.rx...)
	return append(b, r.pn.Pending()...)
}

func hexcut(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("% x ... (%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("% x", b)
}

var _ = bytes.Equal
