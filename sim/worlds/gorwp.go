package worlds

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"net"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/SKAARHOJ/rawpanel-lib/gorwp"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"github.com/SKAARHOJ/rawpanel-lib/topology"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"

	"vsim/core"
	"vsim/simnet"
)

// The gorwp world: the high-level client against one scripted panel (C19).

// GItem is one thing the panel sends.
type GItem struct {
	Kind  string // ev, burst, press, multi, info, map, json, svg, ping, ack, nack, combo, blank, garbage, emptyframe, over, stall, partial, fin, rst, halfclose
	GapMs int
	Join  bool
	Cuts  []Cut
	Drib  int
	CR    bool
	ID    int // component
	Ev    int // kind of event: 0 binary, 1 pulsed, 2 absolute, 3 speed, 4 several, 5 none
	Val   int
	N     int // burst: number of events; stall/partial: cut
	What  int // info: bit 0 model, 1 serial, 2 name
	Hdr   uint32
	Early bool // init: sent before the request arrived
}

// GBind binds a handler.
type GBind struct {
	Kind     int // 0 trigger, 1 binary, 2 pulsed, 3 absolute, 4 intensity
	ID       int
	On       string // start, ev (after N sent messages), ms, inv (inside invocation N of a handler)
	N        int
	Feedback int // feedback calls per invocation
	FbKind   int
	SlowMs   int
	Getters  bool
}

type GFeeder struct {
	N     int
	GapMs int
	Kind  int
}

type GorwpPlan struct {
	Out       string
	LatMs     int
	Reply     Reply
	SegReads  bool
	Window    int
	Stalls    []Stall // panel stops reading, After = bytes beyond the request
	InitMs    int
	Init      []GItem
	NoWait    bool // the script goes on without waiting for the handlers
	Items     []GItem
	Binds     []GBind
	Feeders   []GFeeder
	Pollers   int
	PollGapMs int
	PollSent  bool // also whenever information has been sent, several times
	PollAgain int  // so many times
	PollWhat  int  // 0: everything at once, 5: the topology, else a different single getter each time
	CancelOn  string
	CancelN   int
	CancelMs  int
	StartMs   int
	Others    []GorwpPlan // further panels of the same program
}

type gupd struct {
	kind string // model serial name json svg map
	key  uint32
	sval string
	ival uint32
}

type gev struct {
	ev    *rwp.HWCEvent
	msg   int // index of the message it is in
	at    time.Duration
	seq   uint64 // when sent (0: never)
	opt   bool   // after a garbage payload
	upto  map[string]int
	final bool
}

type gmsg struct {
	ev   []*rwp.HWCEvent
	upds []gupd
	ping bool
}

type ginv struct {
	kind, ver int
	id        uint32
	trig      *rwp.HWCEvent
	a, b      int
	at        time.Duration
	seq       uint64
	snap      map[string]string
}

type gbound struct {
	kind, id   int
	start, end uint64
}

type gorwpRun struct {
	no        int
	addr      string
	end       time.Duration
	c         *core.Ctx
	p         *GorwpPlan
	q         *rec
	net       *simnet.Net
	rp        *gorwp.RawPanel
	err       error
	calledAt  time.Duration
	connAt    time.Duration // Connect returned, -1
	reqAt     time.Duration
	upAt      time.Duration // when the panel has answered the probe
	reqCh     chan struct{}
	readyCh   chan struct{}
	evs       []*gev
	invs      []*ginv
	binds     []*gbound
	nmsg      int
	upds      map[string][]string // per field: values in order of the stream
	updSeq    map[string][]uint64
	mapUpds   []gupd
	mapSent   int
	needAt    map[string]time.Duration
	pingsSent int
	pingsAll  int
	polls     []gpoll
	cancelAt  time.Duration
	cancelSeq uint64
	cancel    context.CancelFunc
	stop      chan struct{}
	counts    map[string]int
	opt       bool
	ended     bool // the script was cut short by the client
	feedback  int
	stuckFb   int
	inHandler int
	ackTotal  int
	finals    map[string]string
	finalStr  []string
	finalMap  map[uint32]uint32
	haveMap   bool
	lastAct   time.Duration
	feedBlock int
	sentCh    chan struct{} // closed and renewed with everything sent
	pollCh    chan struct{} // closed and renewed when information has been sent
}

type gpoll struct {
	seq0, seq uint64
	snap      map[string]string
	by        int
}

type gorwpWorld struct{ runs []*gorwpRun }

func init() { core.Worlds["gorwp"] = &gorwpWorld{} }

func (w *gorwpWorld) NewPlan() any { return &GorwpPlan{} }

// --- plan -------------------------------------------------------------------

var gIDs = []int{1, 2, 3, 4, 5, 38, 1000, 70000}

func genGEv(r *core.Rng) GItem {
	it := GItem{Kind: "ev", ID: gIDs[r.N(len(gIDs))], Ev: r.Pick(0, 0, 0, 1, 1, 2, 3, 4, 5), Val: r.N(1 << 16)}
	return it
}

func genGItems(r *core.Rng, n int, bin bool) []GItem {
	var out []GItem
	for i := 0; i < n; i++ {
		it := genGEv(r)
		switch r.N(20) {
		case 0:
			it.Kind, it.What = "info", 1+r.N(7)
		case 1:
			it.Kind = "map"
		case 2:
			it.Kind = r.PickS("json", "json", "topo")
			if r.P(15) {
				it.Kind = "badjson"
			}
		case 3:
			it.Kind = "svg"
		case 4, 5:
			it.Kind = "ping"
		case 6:
			it.Kind = r.PickS("ack", "nack", "blank", "emptyframe")
		case 7:
			it.Kind = "combo"
		case 8:
			it.Kind = "multi"
		case 9:
			it.Kind = "press"
		case 11:
			it.Kind = r.PickS("other", "other", "mix")
		case 10:
			it.Kind, it.N = "burst", r.Pick(2, 10, 11, 12, 20, 25, 60)
			if r.P(20) {
				it.N = r.Pick(150, 300, 500)
			}
		}
		it.CR = !bin && r.P(25)
		switch {
		case r.P(40):
			it.Join = true
		case r.P(30):
			it.GapMs = r.Pick(1, 5, 50, 300, 1000)
			if r.P(10) {
				it.GapMs = r.Pick(2001, 2500, 4100)
				if r.P(10) {
					it.GapMs = r.Pick(20000, 61000, 130000)
				}
			}
		}
		if r.P(25) {
			it.Cuts = genCuts(r, 3, r.Pick(1900, 3800))
		} else if r.P(5) {
			it.Drib = r.Pick(1, 2, 7)
		}
		out = append(out, it)
	}
	return out
}

func (w *gorwpWorld) Gen(r *core.Rng, prop string) any {
	p := genGorwp(r)
	if r.P(10) {
		for k := r.Pick(1, 1, 1, 2); k > 0; k-- {
			o := genGorwp(r)
			o.StartMs = r.Pick(0, 0, 0, 1, 100, 2000)
			p.Others = append(p.Others, *o)
		}
	}
	return p
}

func genGorwp(r *core.Rng) *GorwpPlan {
	p := &GorwpPlan{Out: "accept"}
	if r.P(2) {
		p.Out = "refuse"
	}
	p.LatMs = r.Pick(0, 0, 1, 100)
	p.Reply = genReply(r, r.PickS("ack", "ack", "ack", "rdy", "map", "silent"))
	p.Reply.DelayMs = r.Pick(0, 0, 0, 1, 50, 1500)
	genAckX(r, &p.Reply, 3)
	if len(p.Reply.Cuts) > 0 {
		p.Reply.Cuts = genCuts(r, 2, 200)
	}
	bin := p.Reply.Kind == "ack"
	p.SegReads = r.P(30)
	p.InitMs = r.Pick(0, 0, 0, 1, 30, 400)
	// the four mandatory pieces, in some order, in some number of messages
	var in []GItem
	if bin && r.P(30) {
		in = append(in, GItem{Kind: "info", What: 7, Val: r.N(1000)})
	} else {
		for _, k := range r3perm(r) {
			in = append(in, GItem{Kind: "info", What: 1 << k, Val: r.N(1000)})
		}
	}
	if r.P(15) {
		in = append(in, GItem{Kind: "topo", Val: r.N(1 << 16)})
	} else {
		in = append(in, GItem{Kind: "json", Val: r.N(1 << 16)}, GItem{Kind: "svg", Val: r.N(1 << 16)})
	}
	if r.P(60) {
		in = append(in, GItem{Kind: "map", ID: 1 + r.N(5), Val: r.N(50)})
	}
	for i := len(in) - 1; i > 0; i-- {
		j := r.N(i + 1)
		in[i], in[j] = in[j], in[i]
	}
	for i := range in {
		in[i].Join = r.P(50)
		if r.P(20) {
			in[i].Cuts = genCuts(r, 2, 100)
		}
		if !in[i].Join && r.P(25) {
			in[i].GapMs = r.Pick(1, 20, 200)
		}
	}
	switch r.N(10) {
	case 0: // one piece is missing
		k := r.N(len(in))
		in = append(in[:k], in[k+1:]...)
	case 1: // one piece comes late
		k := r.N(len(in))
		in[k].GapMs, in[k].Join = r.Pick(1500, 1700, 1800, 1850, 1880, 1890, 2110, 2120, 2200, 2500, 4000), false
	case 2: // the panel goes away in the middle
		k := r.N(len(in) + 1)
		in = append(in[:k:k], GItem{Kind: r.PickS("fin", "rst", "halfclose"), GapMs: r.Pick(0, 0, 1, 300)})
	case 3:
		for i := range in {
			in[i].Early = true
		}
	case 4: // traffic in between
		in = append(in, genGItems(r, 1+r.N(5), bin)...)
		for i := len(in) - 1; i > 0; i-- {
			j := r.N(i + 1)
			in[i], in[j] = in[j], in[i]
		}
	}
	p.Init = in
	p.NoWait = r.P(15)
	p.Items = genGItems(r, r.N(25), bin)
	if r.P(50) {
		// concentrate on few components
		for i := range p.Items {
			p.Items[i].ID = r.Pick(1, 2, 3)
		}
	}
	stall := false
	switch r.N(9) {
	case 0:
		if bin {
			h := []uint32{500000, 500000, 500001, 500000 + uint32(r.N(99999)), 1 << 20, 1 << 30, 1 << 31, 1<<32 - 1, uint32(r.U64())}
			p.Items = append(p.Items, GItem{Kind: "over", Hdr: h[r.N(len(h))], Join: r.P(50), ID: 1 + r.N(3), Val: r.N(2)})
		}
	case 1:
		if bin {
			p.Items = append(p.Items, GItem{Kind: "stall", N: r.Pick(0, 1, 2, 3, 4, 5, r.N(1<<16)), Join: r.P(50), ID: 1 + r.N(3)})
			stall = true
		}
	case 2, 3:
		p.Items = append(p.Items, GItem{Kind: r.PickS("fin", "fin", "halfclose", "rst"), GapMs: r.Pick(0, 0, 1, 500)})
	case 4:
		p.Items = append(p.Items, GItem{Kind: "partial", N: r.N(1 << 16), ID: 1 + r.N(3)}, GItem{Kind: r.PickS("fin", "rst")})
	case 5:
		if bin {
			at := r.N(len(p.Items) + 1)
			p.Items = append(p.Items[:at:at], append([]GItem{{Kind: "garbage", N: r.N(300), Val: r.N(1 << 16), Join: r.P(50)}}, p.Items[at:]...)...)
		}
	}
	for k := r.N(9); k > 0; k-- {
		b := GBind{Kind: r.N(5), ID: gIDs[r.N(len(gIDs))], On: r.PickS("start", "start", "start", "ev", "ms", "inv"), N: r.Pick(0, 1, 3, 10, 50)}
		if r.P(60) {
			b.ID = r.Pick(1, 2, 3)
		}
		if len(p.Binds) > 0 && r.P(25) { // again
			o := p.Binds[r.N(len(p.Binds))]
			b.Kind, b.ID = o.Kind, o.ID
		}
		if b.On == "ms" {
			b.N = r.Pick(0, 1, 50, 500, 2000)
		}
		if r.P(45) {
			b.Feedback = r.Pick(1, 1, 2, 5, 12)
			b.FbKind = r.Pick(0, 0, 1, 2, 3, 4, 5, 6, 7)
		}
		if !stall && r.P(12) {
			b.SlowMs = r.Pick(1, 10, 60)
		}
		b.Getters = r.P(25)
		p.Binds = append(p.Binds, b)
	}
	for k := r.Pick(0, 0, 0, 1, 2); k > 0; k-- {
		p.Feeders = append(p.Feeders, GFeeder{N: r.Pick(1, 5, 30), GapMs: r.Pick(0, 0, 1, 100), Kind: r.N(8)})
	}
	if r.P(30) {
		p.Pollers, p.PollGapMs = 1+r.N(2), r.Pick(1, 10, 100)
		p.PollWhat = r.N(3)
		if r.P(40) {
			p.PollSent, p.PollAgain = true, r.Pick(1, 5, 10, 20, 30)
			if r.P(60) {
				p.PollWhat = 5
			}
		}
	}
	if r.P(20) {
		p.Window = r.Pick(64, 1000, 5000)
		if !stall && r.P(50) {
			p.Stalls = []Stall{{After: r.N(500), Ms: r.Pick(100, 1000, 6000)}}
		}
	}
	if r.P(20) {
		p.CancelOn = r.PickS("connect", "ready", "inv", "sent")
		p.CancelN = r.Pick(0, 0, 1, 5, 20)
		p.CancelMs = r.Pick(0, 0, 1, 100, 1000, 2500)
	}
	return p
}

func r3perm(r *core.Rng) []int {
	p := []int{0, 1, 2}
	for i := 2; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (w *gorwpWorld) Normalize(prop string, plan any) {
	p := plan.(*GorwpPlan)
	normGorwp(p)
	if len(p.Others) > 3 {
		p.Others = p.Others[:3]
	}
	for i := range p.Others {
		p.Others[i].Others = nil
		normGorwp(&p.Others[i])
	}
}

func normGorwp(p *GorwpPlan) {
	core.Clamp(&p.StartMs, 0, 20000)
	if p.Out != "refuse" {
		p.Out = "accept"
	}
	core.Clamp(&p.LatMs, 0, 5000)
	normReply(&p.Reply)
	switch p.Reply.Kind {
	case "ack", "rdy", "map", "silent":
	default:
		p.Reply.Kind = "ack"
	}
	p.Reply.Close, p.Reply.JoinNext, p.Reply.Early = "", false, 0
	bin := p.Reply.Kind == "ack"
	core.Clamp(&p.InitMs, 0, 5000)
	broken := false
	norm := func(items []GItem, initial bool) []GItem {
		var out []GItem
		for i := range items {
			it := items[i]
			core.Clamp(&it.GapMs, 0, 150000)
			core.Clamp(&it.ID, 1, 1<<30)
			if it.Drib < 0 {
				it.Drib = 0
			}
			left := 3800
			if it.Kind == "stall" || it.Kind == "over" || it.Kind == "garbage" {
				left = 1900
			}
			for k := range it.Cuts {
				it.Cuts[k].Off = abs(it.Cuts[k].Off)
				core.Clamp(&it.Cuts[k].Ms, 0, left)
				left -= it.Cuts[k].Ms
			}
			it.N, it.Val = abs(it.N), abs(it.Val)
			switch it.Kind {
			case "burst":
				core.Clamp(&it.N, 1, 600)
				it.Drib = 0
			case "over", "stall", "garbage", "emptyframe":
				if !bin {
					continue
				}
			case "badjson":
				if initial {
					it.Kind = "json"
				}
			case "ev", "press", "multi", "info", "map", "json", "svg", "topo", "ping", "ack", "nack", "combo", "other", "mix", "blank", "partial", "fin", "rst", "halfclose":
			default:
				it.Kind = "ev"
			}
			if it.Kind == "stall" {
				broken = true
			}
			if it.Early {
				it.GapMs = 0
			}
			out = append(out, it)
			switch it.Kind {
			case "over", "stall", "fin", "rst", "halfclose":
				return out // the script ends here
			}
		}
		return out
	}
	p.Init = norm(p.Init, true)
	p.Items = norm(p.Items, false)
	if p.Window != 0 {
		core.Clamp(&p.Window, 64, 1<<24)
	}
	for i := range p.Stalls {
		core.Clamp(&p.Stalls[i].After, 0, 1<<20)
		core.Clamp(&p.Stalls[i].Ms, 0, 20000)
	}
	if broken {
		p.Stalls = nil
	}
	if len(p.Binds) > 12 {
		p.Binds = p.Binds[:12]
	}
	for i := range p.Binds {
		b := &p.Binds[i]
		b.Kind = abs(b.Kind) % 5
		core.Clamp(&b.ID, 1, 1<<30)
		core.Clamp(&b.N, 0, 20000)
		core.Clamp(&b.Feedback, 0, 40)
		b.FbKind = abs(b.FbKind) % 8
		core.Clamp(&b.SlowMs, 0, 200)
		if broken {
			b.SlowMs = 0
		}
		switch b.On {
		case "start", "ev", "ms", "inv":
		default:
			b.On = "start"
		}
	}
	if len(p.Feeders) > 4 {
		p.Feeders = p.Feeders[:4]
	}
	for i := range p.Feeders {
		core.Clamp(&p.Feeders[i].N, 0, 200)
		core.Clamp(&p.Feeders[i].GapMs, 0, 5000)
	}
	core.Clamp(&p.Pollers, 0, 4)
	core.Clamp(&p.PollGapMs, 1, 5000)
	core.Clamp(&p.PollWhat, 0, 5)
	core.Clamp(&p.PollAgain, 0, 100)
	core.Clamp(&p.CancelMs, 0, 20000)
	core.Clamp(&p.CancelN, 0, 10000)
}

// --- the panel's messages ----------------------------------------------------

func (it *GItem) event() *rwp.HWCEvent {
	e := &rwp.HWCEvent{HWCID: uint32(it.ID)}
	bi := func() {
		e.Binary = &rwp.BinaryEvent{Pressed: it.Val&1 != 0, Edge: rwp.BinaryEvent_EdgeID([]int{0, 1, 2, 4, 8, 16}[(it.Val>>1)%6])}
	}
	switch it.Ev % 6 {
	case 0:
		bi()
	case 1:
		e.Pulsed = &rwp.PulsedEvent{Value: int32(it.Val%41 - 20)}
		if it.Val%8 == 5 {
			e.Pulsed.Value = []int32{127, 128, -128, -129, 255, 256, 1000, -32769, 65536, 1<<31 - 1, -1 << 31}[it.Val/8%11]
		}
	case 2:
		e.Absolute = &rwp.AbsoluteEvent{Value: uint32(it.Val % 1001)}
		if it.Val%16 == 5 {
			e.Absolute.Value = []uint32{1001, 1023, 4095, 32768, 65535, 65536, 1<<31 - 1}[it.Val/16%7]
		}
	case 3:
		e.Speed = &rwp.SpeedEvent{Value: int32(it.Val%1001 - 500)}
		if it.Val%16 == 5 {
			e.Speed.Value = []int32{501, -501, 32767, -32769, 1<<31 - 1, -1 << 31}[it.Val/16%6]
		}
	case 4:
		bi()
		e.Pulsed = &rwp.PulsedEvent{Value: int32(it.Val % 7)}
		if it.Val&8 != 0 {
			e.Absolute = &rwp.AbsoluteEvent{Value: uint32(it.Val % 1001)}
		}
		if it.Val&16 != 0 {
			e.Speed = &rwp.SpeedEvent{}
		}
	case 5:
		e.RawAnalog = &rwp.RawAnalogEvent{Value: uint32(it.Val % 4096)}
	}
	if it.Val%5 == 2 {
		e.Timestamp = uint32(it.Val * 7919)
		if it.Val%3 == 0 {
			e.Timestamp = 4242 // not the only event of that moment
		}
	}
	return e
}

// gTopo is a topology description; what it holds besides n varies.
func gTopo(n, shape int) string {
	var f []string
	if shape&1 == 0 {
		f = append(f, fmt.Sprintf(`"title":"T%d"`, n))
	}
	hwc := fmt.Sprintf(`{"id":%d,"x":1,"y":2,"txt":"a","type":%d}`, n, 1+shape%3)
	for k := 0; k < (shape>>1)%4; k++ {
		hwc += fmt.Sprintf(`,{"id":%d,"x":%d,"y":2,"txt":"%s","type":%d}`, 2*n+k, k, filler(shape, shape%7), 1+(shape+k)%3)
	}
	if shape%400 == 7 {
		hwc += fmt.Sprintf(`,{"id":%d,"x":1,"y":2,"txt":"%s","type":1}`, n+1, strings.Repeat("long ", 1+shape%30000))
	}
	f = append(f, `"HWc":[`+hwc+`]`)
	var t []string
	for k := 1; k <= 3; k++ {
		if shape&(4<<k) == 0 || k == 1 {
			t = append(t, fmt.Sprintf(`"%d":{"w":%d,"in":"b","subidx":-1}`, k, 10+(shape+n)%9))
			if shape&(32<<k) != 0 {
				t[len(t)-1] = fmt.Sprintf(`"%d":{"w":%d,"h":5,"out":"rgb","subidx":%d,"disp":{"w":64,"h":%d}}`, k, n, k, n%99)
			}
		}
	}
	f = append(f, `"typeIndex":{`+strings.Join(t, ",")+`}`)
	return "{" + strings.Join(f, ",") + "}"
}

const badTopo = "no topology"

// topoText is a topology as comparable text.
func topoText(t *topology.Topology) string {
	if t == nil {
		return ""
	}
	b, err := json.Marshal(t)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(b)
}

func topoCanon(j string) string {
	t := &topology.Topology{}
	if err := json.Unmarshal([]byte(j), t); err != nil {
		panic(err)
	}
	return topoText(t)
}

// expand turns an item into messages (and, in ASCII mode, lines).
func (r *gorwpRun) expand(it *GItem, bin bool) (frames [][]byte, msgs []gmsg) {
	term := "\n"
	if it.CR {
		term = "\r\n"
	}
	put := func(m *rwp.OutboundMessage, line string, g gmsg) {
		if bin {
			frames = append(frames, frame(mustMarshal(m)))
		} else {
			frames = append(frames, []byte(line+term))
		}
		msgs = append(msgs, g)
	}
	evLine := func(e *rwp.HWCEvent) (string, *rwp.HWCEvent) {
		// ASCII carries one kind per line
		o := &rwp.HWCEvent{HWCID: e.HWCID}
		switch {
		case e.Binary != nil:
			s := fmt.Sprintf("HWC#%d", e.HWCID)
			if e.Binary.Edge != 0 {
				s += fmt.Sprintf(".%d", e.Binary.Edge)
			}
			o.Binary = e.Binary
			if e.Binary.Pressed {
				return s + "=Down", o
			}
			return s + "=Up", o
		case e.Pulsed != nil:
			o.Pulsed = e.Pulsed
			return fmt.Sprintf("HWC#%d=Enc:%d", e.HWCID, e.Pulsed.Value), o
		case e.Absolute != nil:
			o.Absolute = e.Absolute
			return fmt.Sprintf("HWC#%d=Abs:%d", e.HWCID, e.Absolute.Value), o
		case e.Speed != nil:
			o.Speed = e.Speed
			return fmt.Sprintf("HWC#%d=Speed:%d", e.HWCID, e.Speed.Value), o
		}
		return "", nil
	}
	one := func(e *rwp.HWCEvent) {
		if bin {
			put(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}, "", gmsg{ev: []*rwp.HWCEvent{e}})
			return
		}
		l, o := evLine(e)
		if o == nil {
			put(nil, "", gmsg{})
			return
		}
		put(nil, l, gmsg{ev: []*rwp.HWCEvent{o}})
	}
	n := r.nextVal()
	if it.Val%4 == 3 {
		n = 1000 + 1000000*r.no + it.Val%5 // something sent before may come again
	}
	switch it.Kind {
	case "ev":
		one(it.event())
	case "burst":
		for i := 0; i < it.N; i++ {
			x := *it
			x.Val = it.Val + i
			one(x.event())
		}
	case "press":
		d := &rwp.HWCEvent{HWCID: uint32(it.ID), Binary: &rwp.BinaryEvent{Pressed: true}}
		u := &rwp.HWCEvent{HWCID: uint32(it.ID), Binary: &rwp.BinaryEvent{Pressed: false}}
		put(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{d, u}}, fmt.Sprintf("HWC#%d=Press", it.ID), gmsg{ev: []*rwp.HWCEvent{d, u}})
	case "multi":
		var es []*rwp.HWCEvent
		k := 2 + it.Val%4
		if it.Val%16 == 9 {
			k = 6 + it.Val/16%60
		}
		for i := 0; i < k; i++ {
			x := *it
			x.Val, x.Ev, x.ID = it.Val+i, it.Ev+i%2, 1+(it.ID+i*it.Val)%4
			es = append(es, x.event())
		}
		if bin {
			put(&rwp.OutboundMessage{Events: es}, "", gmsg{ev: es})
		} else {
			for _, e := range es {
				one(e)
			}
		}
	case "info":
		pi := &rwp.PanelInfo{}
		var us []gupd
		if it.What&1 != 0 {
			pi.Model = fmt.Sprintf("SK_M%d", n)
			us = append(us, gupd{kind: "model", sval: pi.Model})
		}
		if it.What&2 != 0 {
			pi.Serial = fmt.Sprintf("%d", 100000+n)
			us = append(us, gupd{kind: "serial", sval: pi.Serial})
		}
		if it.What&4 != 0 {
			pi.Name = fmt.Sprintf("Name %d", n)
			if it.Val%7 == 3 {
				pi.Name += noEdgeSpace(oddText(it.Val)+filler(it.Val, it.Val%200)) + []string{"", "=", "", "é", "\"}"}[it.Val%5]
			}
			us = append(us, gupd{kind: "name", sval: pi.Name})
		}
		if bin {
			put(&rwp.OutboundMessage{PanelInfo: pi}, "", gmsg{upds: us})
		} else {
			for _, u := range us {
				put(nil, "_"+u.kind+"="+u.sval, gmsg{upds: []gupd{u}})
			}
		}
	case "map":
		m := map[uint32]uint32{}
		var us []gupd
		for i := 0; i < 1+(it.Val/7)%4; i++ {
			k := uint32(it.ID + i*(it.Val%3))
			v := []uint32{0, 0, 1, uint32(it.ID), 255, 256, uint32(n), uint32(it.Val), 1<<31 - 1, k}[(it.Val/28+i*3)%10]
			if !bin {
				put(nil, fmt.Sprintf("map=%d:%d", k, v), gmsg{upds: []gupd{{kind: "map", key: k, ival: v}}})
				continue
			}
			if _, ok := m[k]; !ok {
				us = append(us, gupd{kind: "map", key: k, ival: v})
				m[k] = v
			}
		}
		if bin {
			put(&rwp.OutboundMessage{HWCavailability: m}, "", gmsg{upds: us})
		}
	case "json":
		j := gTopo(n, it.Val)
		put(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: j}}, "_panelTopology_HWC="+j, gmsg{upds: []gupd{{kind: "json", sval: topoCanon(j)}}})
	case "svg":
		l := it.Val % 2000
		if it.Val%200 == 9 {
			l = 20000 + it.Val%100000
		}
		if it.Val%200 == 10 {
			l = 499999 - 60 + it.Val/200%50 // up to the largest frame
		}
		s := fmt.Sprintf("<svg>%d %s</svg>", n, filler(it.Val, l))
		if bin {
			for proto.Size(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: s}}) > 499999 {
				s = s[1:]
			}
		}
		put(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: s}}, "_panelTopology_svgbase="+s, gmsg{upds: []gupd{{kind: "svg", sval: s}}})
	case "badjson": // which topology the getter gives now is open until the next one
		j := []string{`{"HWc":[{"id":5,`, `{"HWc":7}`, `{"title":"x","HWc":[{"id":-1}]}`, "x", "[]"}[it.Val%5]
		put(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: j}}, "_panelTopology_HWC="+j, gmsg{upds: []gupd{{kind: "json", sval: badTopo}}})
	case "topo": // both in one message
		j := gTopo(n, it.Val)
		s := fmt.Sprintf("<svg>%d</svg>", n)
		if bin {
			put(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: j, Svgbase: s}}, "", gmsg{upds: []gupd{{kind: "json", sval: topoCanon(j)}, {kind: "svg", sval: s}}})
		} else {
			put(nil, "_panelTopology_svgbase="+s, gmsg{upds: []gupd{{kind: "svg", sval: s}}})
			put(nil, "_panelTopology_HWC="+j, gmsg{upds: []gupd{{kind: "json", sval: topoCanon(j)}}})
		}
	case "ping":
		put(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}, "ping", gmsg{ping: true})
	case "ack":
		put(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK}, "ack", gmsg{})
	case "nack":
		put(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_NACK}, "nack", gmsg{})
	case "combo":
		e := it.event()
		nm := fmt.Sprintf("Combo %d", n)
		fl := rwp.OutboundMessage_FlowMsg(it.Val % 5)
		if bin {
			put(&rwp.OutboundMessage{FlowMessage: fl, Events: []*rwp.HWCEvent{e}, PanelInfo: &rwp.PanelInfo{Name: nm}}, "", gmsg{ev: []*rwp.HWCEvent{e}, upds: []gupd{{kind: "name", sval: nm}}, ping: fl == rwp.OutboundMessage_PING})
		} else {
			put(nil, "_name="+nm, gmsg{upds: []gupd{{kind: "name", sval: nm}}})
			one(e)
		}
	case "other": // nothing the client keeps
		if bin {
			msg := &rwp.OutboundMessage{}
			RandMsg(core.NewRng(uint64(it.Val)), msg.ProtoReflect(), 3, false)
			msg.FlowMessage, msg.Events, msg.PanelInfo, msg.PanelTopology, msg.HWCavailability = 0, nil, nil, nil, nil
			if it.Val%3 == 1 {
				msg.PanelInfo = &rwp.PanelInfo{SoftwareVersion: fmt.Sprint("v", n), Platform: "x", MaxClients: 3}
			}
			if _, err := proto.Marshal(msg); err != nil {
				msg = &rwp.OutboundMessage{}
			}
			put(msg, "", gmsg{})
		} else {
			put(nil, []string{"_version=v1.2", "_platform=x", "MemA=5", "_sleepTimer=9", "SysStat=CPUUsage:5:MemTotal:7", "BSY", "RDY", "Msg=HWC#1=Down", "ErrorMsg=ping", "_isSleeping=1", "nonsense", "HWC#1=Foo", "_serialx=7", "_support=ASCII,Binary", "pingx", "Flag#3=1", "_connections=ping;ack", "map=1"}[it.Val%18], gmsg{})
		}
	case "mix": // much in one message
		if !bin {
			put(nil, "", gmsg{})
			break
		}
		rg := core.NewRng(uint64(it.Val))
		msg := &rwp.OutboundMessage{}
		RandMsg(rg, msg.ProtoReflect(), 3, false)
		g := gmsg{}
		msg.FlowMessage, msg.Events, msg.PanelInfo, msg.PanelTopology, msg.HWCavailability = rwp.OutboundMessage_FlowMsg(rg.Pick(0, 0, 1, 1, 2, 3, 4, 5)), nil, nil, nil, nil
		g.ping = msg.FlowMessage == rwp.OutboundMessage_PING
		if rg.P(50) {
			pi := &rwp.PanelInfo{SoftwareVersion: "v"}
			if rg.P(50) {
				pi.Model = fmt.Sprintf("SK_X%d", n)
				g.upds = append(g.upds, gupd{kind: "model", sval: pi.Model})
			}
			if rg.P(50) {
				pi.Serial = fmt.Sprintf("X%d", n)
				g.upds = append(g.upds, gupd{kind: "serial", sval: pi.Serial})
			}
			if rg.P(50) {
				pi.Name = fmt.Sprintf("Mix %d", n)
				g.upds = append(g.upds, gupd{kind: "name", sval: pi.Name})
			}
			msg.PanelInfo = pi
		}
		if rg.P(50) {
			msg.PanelTopology = &rwp.PanelTopology{}
			if rg.P(60) {
				msg.PanelTopology.Json = gTopo(n, it.Val)
				g.upds = append(g.upds, gupd{kind: "json", sval: topoCanon(msg.PanelTopology.Json)})
			}
			if rg.P(60) {
				msg.PanelTopology.Svgbase = fmt.Sprintf("<svg>m%d</svg>", n)
				g.upds = append(g.upds, gupd{kind: "svg", sval: msg.PanelTopology.Svgbase})
			}
		}
		if rg.P(50) {
			k := uint32(it.ID)
			msg.HWCavailability = map[uint32]uint32{k: uint32(n % 3)}
			g.upds = append(g.upds, gupd{kind: "map", key: k, ival: uint32(n % 3)})
		}
		for k := rg.N(4); k > 0; k-- {
			x := *it
			x.Val, x.Ev, x.ID = rg.N(1<<16), rg.N(6), rg.Pick(it.ID, it.ID, 1, 2, 3)
			msg.Events = append(msg.Events, x.event())
		}
		if _, err := proto.Marshal(msg); err != nil { // a text that is not UTF-8
			msg = &rwp.OutboundMessage{FlowMessage: msg.FlowMessage, Events: msg.Events, PanelInfo: msg.PanelInfo, PanelTopology: msg.PanelTopology, HWCavailability: msg.HWCavailability}
		}
		g.ev = msg.Events
		put(msg, "", g)
	case "emptyframe", "blank":
		put(&rwp.OutboundMessage{}, "", gmsg{})
	}
	return
}

func (r *gorwpRun) nextVal() int { r.counts["val"]++; return 1000 + 1000000*r.no + r.counts["val"] }

// build turns items into the timed stream, registering what they mean.
func (r *gorwpRun) build(s *stream, items []GItem, bin bool) {
	c, q := r.c, r.q
	for i := range items {
		it := &items[i]
		switch it.Kind {
		case "garbage":
			c.Fault("garbage-payload")
			n := it.N%300 + 1
			s.add(frame(bytes.Repeat([]byte{0xff}, n)), ms(it.GapMs), it.Join, it.Cuts, it.Drib, nil)
			r.opt = true
		case "partial":
			var b []byte
			fs, _ := r.expand(&GItem{Kind: "ev", ID: it.ID}, bin)
			b = fs[0]
			k := it.N % len(b)
			if !bin && k > 0 && b[k-1] == '\n' {
				k--
			}
			c.Fault("partial-frame")
			s.add(b[:k], ms(it.GapMs), it.Join, nil, 0, nil)
		case "over":
			h := make([]byte, 4)
			v := it.Hdr
			if v < 500000 {
				v = 500000
			}
			binary.LittleEndian.PutUint32(h, v)
			c.Fault("over-limit-header")
			s.add(h, ms(it.GapMs), it.Join, it.Cuts, it.Drib, func() { q.brokenAt, q.brokenK = core.Now(), "over" })
			if v <= 600000 && it.Val%2 == 1 {
				// really as long, and a proper message
				c.Fault("over-limit-payload")
				m := mustMarshal(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{(&GItem{ID: it.ID, Ev: 0, Val: 1}).event(), (&GItem{ID: it.ID, Ev: 4, Val: 1}).event()}})
				m = protowire.AppendTag(m, 5000, protowire.BytesType)
				pad := int(v) - len(m)
				pad -= protowire.SizeVarint(uint64(pad - 3))
				m = protowire.AppendBytes(m, make([]byte, pad))
				if len(m) != int(v) {
					panic("padding")
				}
				s.add(m, 0, true, nil, 0, nil)
			}
			for k := 0; k < 20; k++ {
				fs, _ := r.expand(&GItem{Kind: "ev", ID: it.ID, Ev: k % 4, Val: k}, bin)
				s.add(fs[0], 0, k < 2, nil, 0, nil)
			}
			fs, _ := r.expand(&GItem{Kind: "info", What: 7}, bin)
			s.add(fs[0], 0, false, nil, 0, nil)
			return
		case "stall":
			var inner []byte
			for k := 0; k < 4; k++ {
				fs, _ := r.expand(&GItem{Kind: "ev", ID: it.ID, Ev: k, Val: k}, bin)
				inner = append(inner, fs[0]...)
			}
			m := &rwp.OutboundMessage{Events: []*rwp.HWCEvent{(&GItem{ID: it.ID, Ev: 0, Val: 1}).event(), (&GItem{ID: it.ID, Ev: 4, Val: 1}).event()}}
			b := append(frame(mustMarshal(m)), inner...)
			l := 4 + proto.Size(m)
			k := 1 + it.N%(l-1)
			if k < 4 {
				c.Fault("stall-in-header")
			} else {
				c.Fault("stall-in-payload")
			}
			s.add(b[:k], ms(it.GapMs), it.Join, it.Cuts, it.Drib, func() { q.brokenAt, q.brokenK = core.Now(), "stall" })
			s.add(b[k:], 6*time.Second, false, nil, 0, nil)
			for k := 0; k < 3; k++ {
				fs, _ := r.expand(&GItem{Kind: "ev", ID: it.ID, Ev: k % 4, Val: k}, bin)
				s.add(fs[0], 100*time.Millisecond, false, nil, 0, nil)
			}
			return
		case "fin", "rst", "halfclose":
			s.segs = append(s.segs, seg{gap: ms(it.GapMs), end: it.Kind})
			return
		default:
			fs, msgs := r.expand(it, bin)
			if len(it.Cuts) > 0 || it.Drib > 0 {
				c.Fault("segmented")
			}
			if it.Join {
				c.Fault("coalesced")
			}
			if it.Kind == "burst" {
				c.Fault("burst")
			}
			for k := range fs {
				g := msgs[k]
				mi := r.nmsg
				r.nmsg++
				var es []*gev
				for _, e := range g.ev {
					x := &gev{ev: e, msg: mi, opt: r.opt, at: -1, upto: map[string]int{}}
					for f, v := range r.upds {
						x.upto[f] = len(v)
					}
					es = append(es, x)
					r.evs = append(r.evs, x)
				}
				type ref struct {
					f string
					i int
				}
				var refs []ref
				nmap := 0
				for _, u := range g.upds {
					switch u.kind {
					case "map":
						r.mapUpds = append(r.mapUpds, u)
						nmap++
					default:
						r.upds[u.kind] = append(r.upds[u.kind], u.sval)
						r.updSeq[u.kind] = append(r.updSeq[u.kind], 0)
						refs = append(refs, ref{u.kind, len(r.upds[u.kind]) - 1})
					}
				}
				done := func() {
					sq := r.c.Seq()
					for _, e := range es {
						e.at, e.seq = core.Now(), sq
					}
					for _, x := range refs {
						r.updSeq[x.f][x.i] = sq
					}
					r.mapSent += nmap
					for _, u := range g.upds {
						if _, ok := r.needAt[u.kind]; !ok {
							r.needAt[u.kind] = core.Now()
						}
					}
					if g.ping {
						r.pingsSent++
					}
					if r.p.PollSent && len(g.upds) > 0 {
						close(r.pollCh)
						r.pollCh = make(chan struct{})
					}
					r.tick("sent")
					close(r.sentCh)
					r.sentCh = make(chan struct{})
				}
				if g.ping {
					r.pingsAll++
				}
				if k == 0 {
					cuts, drib := it.Cuts, it.Drib
					if bin {
						cuts = capCuts(cuts, len(fs[k]))
					}
					if len(fs[k]) > 20000 {
						drib = 0
					}
					s.add(fs[k], ms(it.GapMs), it.Join, cuts, drib, done)
				} else {
					s.add(fs[k], 0, true, nil, 0, done)
				}
			}
		}
	}
}

// --- the run -----------------------------------------------------------------

func (r *gorwpRun) tick(name string) {
	r.counts[name]++
	r.lastAct = core.Now()
	if r.p.CancelOn == name && r.counts[name] == r.p.CancelN+1 {
		if r.p.CancelMs == 0 {
			r.doCancel(name)
		} else {
			r.c.Go("canceller", func() {
				select {
				case <-time.After(ms(r.p.CancelMs)):
					r.doCancel(name)
				case <-r.stop:
				}
			})
		}
	}
}

func (r *gorwpRun) doCancel(why string) {
	if r.cancelAt >= 0 {
		return
	}
	r.cancelAt, r.cancelSeq = core.Now(), r.c.Seq()
	r.c.Fault("user-cancel")
	r.c.Logf("CANCEL %s", why)
	if r.rp != nil && r.p.CancelN%2 == 1 {
		select {
		case <-r.readyCh: // also hands the panel over, for the race detector
			r.rp.Close()
			return
		default:
		}
	}
	r.cancel()
}

func (w *gorwpWorld) Run(c *core.Ctx, plan any) {
	p := plan.(*GorwpPlan)
	plans := []*GorwpPlan{p}
	for i := range p.Others {
		plans = append(plans, &p.Others[i])
	}
	w.runs = nil
	for i, p := range plans {
		w.runs = append(w.runs, &gorwpRun{no: i, addr: fmt.Sprintf("10.0.0.%d:9923", i+2), c: c, p: p, net: &simnet.Net{}, connAt: -1, reqAt: -1, upAt: -1, cancelAt: -1, reqCh: make(chan struct{}), readyCh: make(chan struct{}), pollCh: make(chan struct{}), sentCh: make(chan struct{}), stop: make(chan struct{}),
			upds: map[string][]string{}, updSeq: map[string][]uint64{}, needAt: map[string]time.Duration{}, counts: map[string]int{}})
	}
	net.SimDial = func(ctx context.Context, network, addr string) (net.Conn, error) {
		for _, r := range w.runs {
			if r.addr == addr {
				return r.dial(ctx, network, addr)
			}
		}
		c.Fail("C19", "dial", "the client dials %s, which nobody asked for", addr)
		return nil, simnet.ErrRefused
	}
	if len(plans) > 1 {
		c.Fault("several-clients")
	}
	var over sync.WaitGroup
	for _, r := range w.runs[1:] {
		r := r
		over.Add(1)
		c.Go("main", func() {
			defer over.Done()
			r.live()
		})
	}
	w.runs[0].live()
	over.Wait()
	time.Sleep(10 * time.Second)
	net.SimDial = nil
}

func (r *gorwpRun) live() {
	c, p := r.c, r.p
	if p.StartMs > 0 {
		time.Sleep(ms(p.StartMs))
	}
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	done := make(chan struct{})
	c.Go("connect", func() {
		r.calledAt = core.Now()
		r.tick("connect")
		r.rp, r.err = gorwp.Connect(r.addr, ctx, cancel)
		r.connAt = core.Now()
		c.Logf("Connect returned %v", r.err)
		close(done)
	})
	select {
	case <-done:
	case <-time.After(20 * time.Second):
	}
	if r.connAt >= 0 && r.err == nil && r.rp != nil {
		r.use()
	} else {
		close(r.readyCh)
		time.Sleep(time.Second)
	}
	close(r.stop)
	r.end = core.Now()
	if r.end > c.SimEnd {
		c.SimEnd = r.end
	}
	cancel()
	if r.q != nil {
		r.q.die()
		r.q.pn.Reset()
		time.Sleep(time.Millisecond)
		r.q.cl.Close()
	}
}

func (r *gorwpRun) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	if r.q != nil {
		r.c.Fail("C19", "second-dial", "the client dials a second time")
		return nil, simnet.ErrRefused
	}
	if r.p.LatMs > 0 {
		time.Sleep(ms(r.p.LatMs))
	}
	if r.p.Out != "accept" {
		r.c.Fault("dial-refused")
		return nil, simnet.ErrRefused
	}
	q := newRec()
	q.name = fmt.Sprint(r.no)
	q.plan = &Conn{Reply: r.p.Reply}
	q.cl, q.pn = r.net.Pair(r.p.Window)
	q.cl.SegmentReads = r.p.SegReads
	q.acceptAt = core.Now()
	q.onRx = r.rx
	r.q = q
	r.c.Go("panel", func() { r.serve() })
	return q.cl, nil
}

// rx is called when bytes have arrived at the panel.
func (r *gorwpRun) rx() {
	q := r.q
	if q.stalling {
		r.lastAct = core.Now()
	}
	if r.reqAt >= 0 || q.probeAt < 0 {
		return
	}
	rest := q.rx[q.probeLen:]
	if r.p.Reply.Kind != "ack" {
		if len(rest) < 1 {
			return
		}
		rest = rest[1:]
		if bytes.IndexByte(rest, '\n') < 0 {
			return
		}
	} else {
		if len(rest) < 4 || len(rest) < 4+int(binary.LittleEndian.Uint32(rest)) {
			return
		}
	}
	r.reqAt = core.Now()
	r.c.Logf("panel got the request")
	for _, s := range r.p.Stalls {
		q.dynStalls = append(q.dynStalls, Stall{After: len(q.rx) + s.After, Ms: s.Ms})
	}
	close(r.reqCh)
}

func (r *gorwpRun) serve() {
	c, q, p := r.c, r.q, r.p
	defer func() { q.scriptDone = true; r.tick("scriptdone") }()
	c.Go("panelread", func() { q.readLoop(c) })
	select {
	case <-q.probeCh:
	case <-q.deadCh:
		return
	case <-r.stop:
		return
	}
	bin := p.Reply.Kind == "ack"
	b, mode := p.Reply.bytes()
	q.mode = mode
	var s stream
	if p.Reply.Kind != "silent" {
		s.add(b, ms(p.Reply.DelayMs), false, p.Reply.Cuts, 0, func() { q.replyEnd = core.Now() })
	}
	var early, late []GItem
	for _, it := range p.Init {
		if it.Early && bin && len(late) == 0 {
			early = append(early, it)
		} else {
			late = append(late, it)
		}
	}
	r.build(&s, early, bin)
	if !q.play(c, &s, nil) {
		return
	}
	if !bin {
		select {
		case <-q.lfCh:
		case <-q.deadCh:
			return
		case <-r.stop:
			return
		}
	}
	r.upAt = core.Now()
	ask := time.NewTimer(400 * time.Millisecond)
	select {
	case <-r.reqCh:
	case <-ask.C:
		// not asked: it tells what it is all the same
		c.Fault("unasked")
		r.lastAct = core.Now()
	case <-q.deadCh:
		return
	case <-r.stop:
		return
	}
	ask.Stop()
	if p.InitMs > 0 {
		time.Sleep(ms(p.InitMs))
	}
	var s2 stream
	r.build(&s2, late, bin)
	if len(late) > 0 {
		switch late[len(late)-1].Kind {
		case "fin", "rst", "halfclose", "over", "stall":
			q.play(c, &s2, nil)
			return
		}
	}
	if !q.play(c, &s2, nil) {
		return
	}
	if !p.NoWait {
		select {
		case <-r.readyCh:
		case <-q.deadCh:
			return
		case <-r.stop:
			return
		}
	}
	var s3 stream
	r.build(&s3, p.Items, bin)
	q.play(c, &s3, nil)
}

var gFields = []string{"model", "serial", "name"}

// snapshot asks the getters: all of them, or one.
func (r *gorwpRun) snapshot(which int) map[string]string {
	m := map[string]string{}
	if which == 0 || which == 1 {
		m["model"] = r.rp.State.GetModel()
	}
	if which == 0 || which == 2 {
		m["serial"] = r.rp.State.GetSerial()
	}
	if which == 0 || which == 3 {
		m["name"] = r.rp.State.GetName()
	}
	if which == 0 || which == 4 {
		t := r.rp.State.GetTopology()
		if t != nil {
			for _, id := range t.GetHWCs() {
				t.GetHWCtype(id)
			}
		}
		m["json"] = topoText(t)
	}
	if which == 5 && !r.rp.IsInitialized() {
		r.c.Fail("C19", "state-uninitialised", "the panel counts as not initialised after Connect succeeded")
	}
	return m
}

func (r *gorwpRun) handle(ver int, b *GBind, inv *ginv) {
	inv.kind, inv.ver = b.Kind, ver
	inv.at, inv.seq = core.Now(), r.c.Seq()
	r.invs = append(r.invs, inv)
	r.c.Logf("handler %d (kind %d) id=%d %d %d", ver, b.Kind, inv.id, inv.a, inv.b)
	r.inHandler++
	if r.inHandler > 1 {
		r.c.Probe("overlapping-handlers")
	}
	r.tick("inv")
	if b.Getters {
		inv.snap = r.snapshot(0)
	}
	nth := r.counts["inv"]
	for i := range r.p.Binds {
		if x := &r.p.Binds[i]; x.On == "inv" && x.N+1 == nth {
			r.c.Fault("binding-inside-handler")
			r.bind(i)
		}
	}
	for i := 0; i < b.Feedback; i++ {
		r.c.Probe("feedback")
		r.send(b.FbKind, inv.id, i)
		r.feedback++
		r.lastAct = core.Now()
	}
	if b.SlowMs > 0 {
		r.c.Fault("slow-handler")
		time.Sleep(ms(b.SlowMs))
	}
	r.inHandler--
	r.lastAct = core.Now()
}

// send is one call of a feedback function.
func (r *gorwpRun) send(kind int, id uint32, k int) {
	switch kind % 8 {
	case 0:
		r.rp.SetLEDColor(id, color.RGBA{uint8(k), 2, 3, 255}, rwp.HWCMode_ON)
	case 1:
		r.rp.SetLEDColorByIndex(id, rwp.ColorIndex_Colors(k%10), rwp.HWCMode_ON)
	case 2:
		r.rp.SetRWPText(id, "t", "a", fmt.Sprint(k), true)
	case 3:
		r.rp.SendRawState(&rwp.HWCState{HWCIDs: []uint32{id}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_DIMMED}})
	case 4:
		r.rp.SetRWPTextByStruct(id, &rwp.HWCText{Title: "x"})
	case 5:
		r.rp.SetBrightness(k % 9)
	case 6:
		enc := []gorwp.DrawImageEncoding{gorwp.Mono, gorwp.Gray, gorwp.RGB}[k%3]
		r.rp.DrawImageOptions(id, image.NewGray(image.Rect(0, 0, 8, 8)), &topology.TopologyHWcTypeDef_Display{W: 16, H: 8}, "", enc)
	case 7: // looks the component up in the topology
		r.rp.DrawImage(id, image.NewGray(image.Rect(0, 0, 8, 8)))
	}
}

func (r *gorwpRun) bind(i int) {
	b := &r.p.Binds[i]
	g := &gbound{kind: b.Kind, id: b.ID, start: r.c.Seq()}
	r.binds = append(r.binds, g)
	ver := len(r.binds) - 1
	id := uint32(b.ID)
	switch b.Kind {
	case 0:
		r.rp.BindTrigger(id, func(id uint32, e *rwp.HWCEvent) { r.handle(ver, b, &ginv{id: id, trig: e}) })
	case 1:
		r.rp.BindBinary(id, func(id uint32, s gorwp.BinaryStatus, e gorwp.BinaryEdge) {
			r.handle(ver, b, &ginv{id: id, a: int(s), b: int(e)})
		})
	case 2:
		r.rp.BindPulsed(id, func(id uint32, v int) { r.handle(ver, b, &ginv{id: id, a: v}) })
	case 3:
		r.rp.BindAbsolute(id, func(id uint32, v int) { r.handle(ver, b, &ginv{id: id, a: v}) })
	case 4:
		r.rp.BindIntensity(id, func(id uint32, v int) { r.handle(ver, b, &ginv{id: id, a: v}) })
	}
	g.end = r.c.Seq()
	r.c.Logf("bound %d: kind %d id %d", ver, b.Kind, b.ID)
}

// use is what the program does with a connected panel.
func (r *gorwpRun) use() {
	c, p := r.c, r.p
	wait := func(d time.Duration) bool {
		select {
		case <-time.After(d):
			return true
		case <-r.stop:
			return false
		}
	}
	for i := range p.Binds {
		i := i
		b := &p.Binds[i]
		switch b.On {
		case "start":
			r.bind(i)
		case "ms":
			c.Go("binder", func() {
				if wait(ms(b.N)) {
					c.Fault("late-binding")
					r.bind(i)
				}
			})
		case "ev":
			c.Go("binder", func() {
				for r.counts["sent"] < b.N+1 {
					select {
					case <-r.sentCh:
					case <-r.stop:
						return
					}
				}
				if b.SlowMs > 0 && !wait(time.Millisecond) {
					return
				}
				c.Fault("late-binding")
				r.bind(i)
			})
		}
	}
	for i := range p.Feeders {
		f := &p.Feeders[i]
		c.Go("feeder", func() {
			for k := 0; k < f.N; k++ {
				if f.GapMs > 0 && !wait(ms(f.GapMs)) {
					return
				}
				select {
				case <-r.stop:
					return
				default:
				}
				r.feedBlock++
				r.send(f.Kind, 7, k)
				r.feedBlock--
			}
		})
	}
	for i := 0; i < p.Pollers; i++ {
		i := i
		c.Go("poller", func() {
			n := p.PollWhat
			again, polls := 0, 0
			for {
				s0 := c.Seq()
				which := 0
				if p.PollWhat == 5 {
					which = 4
				} else if p.PollWhat != 0 {
					which = 1 + n%5
					n += i + 1
				}
				m := r.snapshot(which)
				if len(r.polls) < 5000 {
					r.polls = append(r.polls, gpoll{s0, c.Seq(), m, i})
				}
				if again > 0 {
					again--
					continue
				}
				polls++
				gap := ms(p.PollGapMs)
				if polls > 300 { // rarely, after a while
					gap = ms(200 + polls)
				}
				select {
				case <-r.pollCh:
					again = p.PollAgain
				case <-time.After(gap):
				case <-r.stop:
					return
				}
			}
		})
	}
	r.tick("ready")
	close(r.readyCh)
	// until everything has come to rest
	for core.Now() < 20*time.Minute {
		time.Sleep(2 * time.Second)
		if r.q.stalling {
			r.lastAct = core.Now()
		}
		if r.q.scriptDone && core.Now()-r.lastAct > 4*time.Second {
			break
		}
	}
	r.finals = r.snapshot(0)
	r.finalMap, r.haveMap = availability(&r.rp.State)
	r.finalStr = stateStrings(&r.rp.State)
}

// stateStrings reads all strings kept in the state.
func stateStrings(st *gorwp.RawPanelState) (out []string) {
	if l, ok := any(st).(sync.Locker); ok {
		l.Lock()
		defer l.Unlock()
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.String:
			out = append(out, strings.Clone(*(*string)(unsafe.Pointer(v.UnsafeAddr()))))
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		}
	}
	walk(reflect.ValueOf(st).Elem())
	return
}

// availability reads the availability table: the client has no getter for it,
// so the one map of that type in the state is looked up.
func availability(st *gorwp.RawPanelState) (map[uint32]uint32, bool) {
	v := reflect.ValueOf(st)
	for i := 0; i < v.NumMethod(); i++ {
		t := v.Method(i).Type()
		if t.NumIn() == 0 && t.NumOut() == 1 && t.Out(0) == reflect.TypeOf(map[uint32]uint32{}) {
			return v.Method(i).Call(nil)[0].Interface().(map[uint32]uint32), true
		}
	}
	v = v.Elem()
	var out map[uint32]uint32
	n := 0
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(map[uint32]uint32{}) {
			src := *(*map[uint32]uint32)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
			if l, ok := any(st).(sync.Locker); ok {
				l.Lock()
			}
			out = map[uint32]uint32{}
			for k, x := range src {
				out[k] = x
			}
			if l, ok := any(st).(sync.Locker); ok {
				l.Unlock()
			}
			n++
		}
	}
	return out, n == 1
}

// --- checks -------------------------------------------------------------------

func (w *gorwpWorld) After(c *core.Ctx, plan any, res *runtime.SimResult) {
	runs := w.runs
	w.runs = nil
	if len(runs) == 0 {
		return
	}
	if !res.MainDone {
		c.Fail("C19", "stuck", "the simulation stopped before the run was over")
		return
	}
	for _, r := range runs {
		c.NonTriv = c.NonTriv || r.q != nil
		r.checkConnect()
		r.checkDispatch()
		r.checkState()
		r.checkAcks()
	}
}

// healthy: nothing but the script's own orderly end happened to the connection
func (r *gorwpRun) healthy() bool {
	return r.q != nil && r.cancelAt < 0 && r.q.panelEndK != "rst"
}

func (r *gorwpRun) checkConnect() {
	c := r.c
	if r.connAt < 0 {
		c.Fail("C19", "connect-hangs", "Connect has not returned 20 s after it was called")
		return
	}
	if r.q == nil {
		if r.err == nil {
			c.Fail("C19", "connect-result", "Connect succeeded although the panel refused the connection")
		}
		return
	}
	if d := r.connAt - r.calledAt; d > 7*time.Second+ms(r.p.LatMs) {
		c.Fail("C19", "connect-slow", "Connect returned after %v", d)
	}
	var last time.Duration
	missing := ""
	for _, f := range []string{"model", "serial", "json", "svg"} {
		t, ok := r.needAt[f]
		if !ok {
			missing = f
			break
		}
		if t > last {
			last = t
		}
	}
	if r.err == nil && (missing != "" || last > r.connAt) {
		c.Fail("C19", "connect-result", "Connect succeeded at %v although the panel's %s has not arrived (connection end: %q at %v)", r.connAt, orS(missing, "information"), r.q.panelEndK, r.q.panelEnd)
		return
	}
	if r.err == nil && r.reqAt >= 0 && last > r.reqAt+2100*time.Millisecond {
		c.Fail("C19", "connect-result", "Connect succeeded with information that was complete only %v after the request", last-r.reqAt)
	}
	winAt := r.reqAt
	if winAt < 0 {
		winAt = r.upAt
	}
	if r.err != nil && winAt >= 0 {
		if r.cancelAt >= 0 && r.cancelAt <= r.connAt {
			return
		}
		if r.q.panelEndK == "rst" && r.q.panelEnd <= r.connAt {
			return
		}
		if r.q.brokenAt >= 0 && r.q.brokenAt <= r.connAt {
			return
		}
		if d := r.connAt - winAt; d < 1900*time.Millisecond && (r.q.panelEnd < 0 || r.q.panelEnd > r.connAt) {
			c.Fail("C19", "connect-result", "Connect failed (%v) only %v after the request, although the connection was in order and the information may still arrive in the initialisation window", r.err, d)
			return
		}
		if missing != "" || last > winAt+1900*time.Millisecond || last >= r.connAt {
			return
		}
		c.Fail("C19", "connect-result", "Connect failed (%v) although model, serial, topology JSON and SVG arrived within %v of the request", r.err, last-winAt)
	}
}

// matches tells whether an invocation is what event e means for its handler.
func (inv *ginv) matches(e *rwp.HWCEvent) bool {
	if inv.id != e.HWCID {
		return false
	}
	switch inv.kind {
	case 0:
		return inv.trig != nil && proto.Equal(inv.trig, e)
	case 1:
		if e.Binary == nil {
			return false
		}
		want := int(gorwp.Up)
		if e.Binary.Pressed {
			want = gorwp.Down
		}
		return inv.a == want && inv.b == int(e.Binary.Edge)
	case 2:
		return e.Pulsed != nil && inv.a == int(e.Pulsed.Value)
	case 3:
		return e.Absolute != nil && inv.a == int(e.Absolute.Value)
	case 4:
		return e.Speed != nil && inv.a == int(e.Speed.Value)
	}
	return false
}

func hasKind(e *rwp.HWCEvent, k int) bool {
	switch k {
	case 0:
		return true
	case 1:
		return e.Binary != nil
	case 2:
		return e.Pulsed != nil
	case 3:
		return e.Absolute != nil
	case 4:
		return e.Speed != nil
	}
	return false
}

func (r *gorwpRun) checkDispatch() {
	c := r.c
	if r.rp == nil {
		return
	}
	// State: (event index, kinds of that event already handled).
	type st struct {
		e    int
		mask int
	}
	// versions that may / must handle kind k of event e
	type key struct{ kind, id int }
	byKey := map[key][]int{}
	for v, b := range r.binds {
		k := key{b.kind, b.id}
		byKey[k] = append(byKey[k], v)
	}
	// must: some binding was complete when the event was sent
	must := func(i, kind int) bool {
		e := r.evs[i]
		if e.seq == 0 || e.opt || !hasKind(e.ev, kind) || !r.healthy() {
			return false
		}
		for _, v := range byKey[key{kind, int(e.ev.HWCID)}] {
			if b := r.binds[v]; b.end != 0 && b.end < e.seq {
				return true
			}
		}
		return false
	}
	// versions superseded before event e was sent may not handle it
	okVer := func(i int, inv *ginv) bool {
		e := r.evs[i]
		b := r.binds[inv.ver]
		for _, v := range byKey[key{b.kind, b.id}] {
			if o := r.binds[v]; v != inv.ver && o.end != 0 && o.start > b.end && o.end < e.seq && b.end != 0 {
				return false
			}
		}
		return true
	}
	cur := map[st]bool{{0, 0}: true}
	// closure: advance over events whose remaining kinds need not be handled
	closure := func(s map[st]bool) map[st]bool {
		out := map[st]bool{}
		for x := range s {
			for {
				out[x] = true
				if x.e >= len(r.evs) {
					break
				}
				free := true
				for k := 0; k < 5; k++ {
					if x.mask&(1<<k) == 0 && must(x.e, k) {
						free = false
					}
				}
				if !free {
					break
				}
				x = st{x.e + 1, 0}
				if out[x] {
					break
				}
			}
		}
		return out
	}
	cur = closure(cur)
	for n, inv := range r.invs {
		next := map[st]bool{}
		far := 0
		for x := range cur {
			if x.e > far {
				far = x.e
			}
			if x.e >= len(r.evs) || x.mask&(1<<inv.kind) != 0 {
				continue
			}
			e := r.evs[x.e]
			if e.seq == 0 || e.seq > inv.seq {
				continue
			}
			if inv.matches(e.ev) && okVer(x.e, inv) {
				next[st{x.e, x.mask | 1<<inv.kind}] = true
			}
		}
		if len(next) == 0 {
			want := "no further event"
			if far < len(r.evs) {
				want = fmt.Sprintf("event %d of the stream: %v", far, r.evs[far].ev)
			}
			c.Fail("C19", "dispatch", "invocation %d (handler %d kind %d, id %d, args %d %d, %v, at %v) does not fit what the panel sent; the dispatcher could have reached %s%s", n, inv.ver, inv.kind, inv.id, inv.a, inv.b, inv.trig, inv.at, want, r.brokenText())
			return
		}
		cur = closure(next)
	}
	for x := range cur {
		if x.e >= len(r.evs) {
			return
		}
	}
	far := 0
	for x := range cur {
		if x.e > far {
			far = x.e
		}
	}
	c.Fail("C19", "not-dispatched", "event %d of the stream (%v, sent at %v) was not handed to its handler; %d of %d invocations made by %v; handlers waiting in feedback: %d%s", far, r.evs[far].ev, r.evs[far].at, len(r.invs), len(r.evs), r.end, r.inHandler, r.brokenText())
}

func (r *gorwpRun) brokenText() string {
	if r.q.brokenAt >= 0 {
		return fmt.Sprintf(" (%s frame at %v)", r.q.brokenK, r.q.brokenAt)
	}
	if r.q.panelEnd >= 0 {
		return fmt.Sprintf(" (panel %s at %v)", r.q.panelEndK, r.q.panelEnd)
	}
	return ""
}

// idx is the first position, not before from, of a value in the stream's
// updates of field f that was sent before seq; -1 is the initial state, -2: none.
func (r *gorwpRun) idx(f, v string, from int, seq uint64) int {
	if v == "" && from <= -1 {
		return -1
	}
	if from < 0 {
		from = 0
	}
	for i := from; i < len(r.upds[f]); i++ {
		if s := r.updSeq[f][i]; s == 0 || s > seq {
			break
		}
		if r.upds[f][i] == v || r.upds[f][i] == badTopo {
			return i
		}
	}
	return -2
}

func (r *gorwpRun) checkState() {
	c := r.c
	if r.rp == nil || r.finals == nil {
		return
	}
	fields := append(append([]string(nil), gFields...), "json")
	// every observation: sent before, never older than what was seen before
	for by := 0; by < r.p.Pollers; by++ {
		last := map[string]int{}
		for _, f := range fields {
			last[f] = -1
		}
		for _, pl := range r.polls {
			if pl.by != by {
				continue
			}
			for _, f := range fields {
				v, ok := pl.snap[f]
				if !ok {
					continue
				}
				i := r.idx(f, v, last[f], pl.seq)
				if i == -2 {
					if r.idx(f, v, -1, pl.seq) == -2 {
						c.Fail("C19", "state-invented", "getter for %s returned %q, which the panel has not sent", f, cut(v, 300))
						return
					}
					c.Fail("C19", "state-older", "getter for %s returned %q after update %d had been returned", f, cut(v, 300), last[f])
					return
				}
				last[f] = i
			}
		}
	}
	// inside a handler: at least what preceded the event in the stream (the
	// last matching event sent before gives a lower bound only if unique)
	for _, inv := range r.invs {
		if inv.snap == nil {
			continue
		}
		lo := map[string]int{}
		n := 0
		for _, e := range r.evs {
			if e.seq != 0 && e.seq < inv.seq && !e.opt && inv.matches(e.ev) {
				n++
				for f, k := range e.upto {
					if n == 1 || k < lo[f] {
						lo[f] = k
					}
				}
			}
		}
		if n != 1 {
			continue
		}
		c.Probe("getter-in-handler")
		for _, f := range fields {
			if r.idx(f, inv.snap[f], lo[f]-1, ^uint64(0)) == -2 {
				c.Fail("C19", "state-stale", "inside the handler of an event the getter for %s returned %q, but update %d precedes the event in the stream", f, cut(inv.snap[f], 300), lo[f]-1)
				return
			}
		}
	}
	if !r.healthy() || r.opt {
		return
	}
	for _, f := range fields {
		want := ""
		for i, s := range r.updSeq[f] {
			if s != 0 {
				want = r.upds[f][i]
			}
		}
		if got := r.finals[f]; got != want && want != badTopo {
			c.Fail("C19", "state-final", "getter for %s returns %q at the end, the panel's last was %q%s", f, cut(got, 300), cut(want, 300), r.brokenText())
			return
		}
	}
	// There is no getter for the SVG: a string of the state that holds one must hold the last.
	if v := r.upds["svg"]; len(v) > 0 {
		want, old := "", ""
		for i, sq := range r.updSeq["svg"] {
			if sq != 0 {
				want = v[i]
			}
		}
		for _, got := range r.finalStr {
			if got == want {
				old = ""
				break
			}
			for i, sq := range r.updSeq["svg"] {
				if sq != 0 && v[i] == got {
					old = got
				}
			}
		}
		if old != "" {
			c.Fail("C19", "state-svg", "the SVG kept at the end is %q, the panel's last was %q%s", cut(old, 300), cut(want, 300), r.brokenText())
			return
		}
	}
	if r.haveMap {
		want := map[uint32]uint32{}
		for _, u := range r.mapUpds[:r.mapSent] {
			want[u.key] = u.ival
		}
		got := map[uint32]uint32{}
		for k, v := range r.finalMap {
			got[k] = v
		}
		if r.p.Reply.Kind == "map" {
			// the lines that answered the probe may or may not be counted
			for k := 3; k < 60; k++ {
				if _, ok := want[uint32(k)]; !ok {
					delete(got, uint32(k))
				}
			}
		}
		if !reflect.DeepEqual(got, want) {
			c.Fail("C19", "state-availability", "availability at the end is %v, the panel's is %v", sortedMap(got), sortedMap(want))
		}
	}
}

func sortedMap(m map[uint32]uint32) string {
	var ks []int
	for k := range m {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d:%d ", k, m[uint32(k)])
	}
	return b.String()
}

// checkAcks parses what the panel received.
func (r *gorwpRun) checkAcks() {
	c, q := r.c, r.q
	if q == nil || q.probeAt < 0 {
		return
	}
	b := q.sent()[q.probeLen:]
	acks := 0
	if r.p.Reply.Kind == "ack" {
		for len(b) >= 4 {
			n := int(binary.LittleEndian.Uint32(b))
			if n > 1<<24 {
				c.Fail("C19", "stream", "the panel received something that is no frame: %s", hexcut(b))
				return
			}
			if len(b) < 4+n {
				break
			}
			m := &rwp.InboundMessage{}
			if err := proto.Unmarshal(b[4:4+n], m); err != nil {
				c.Fail("C19", "stream", "the panel received a frame that is no message: %s", hexcut(b[4:4+n]))
				return
			}
			if m.FlowMessage == rwp.InboundMessage_ACK {
				acks++
			}
			b = b[4+n:]
		}
	} else {
		if len(b) > 0 {
			b = b[1:]
		}
		for _, l := range strings.Split(string(b), "\n") {
			if l == "ack" {
				acks++
			}
		}
	}
	if acks > r.pingsSent {
		c.Fail("C19", "acks", "the panel received %d acknowledges for %d pings", acks, r.pingsSent)
	}
	if r.rp != nil && r.cancelAt < 0 && q.panelEnd < 0 && q.brokenAt < 0 && !r.opt && acks < r.pingsSent {
		c.Fail("C19", "acks", "the panel received only %d acknowledges for %d pings", acks, r.pingsSent)
	}
}
