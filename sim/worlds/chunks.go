package worlds

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"time"

	rawpanellib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"

	"vsim/core"
	"vsim/rplc"
)

// The chunks world (C05): senders put the lines of chunked images on a link
// which delays, drops and duplicates them; three kinds of receivers reassemble
// what arrives: the batch converter, the streaming reader, and the streaming
// reader whose state is serialised between lines (also through the C wrapper).
// Receivers may lose their state.

// CDef is an image, or a transfer made by hand.
type CDef struct {
	Enc    bool // made by the converter
	IDs    []int
	Type   int
	W, H   int
	Off    bool
	X, Y   int
	Len    int // bytes (encoded)
	Simple bool
	Max    int  // index of the last chunk (by hand)
	CLen   int  // bytes per chunk (by hand)
	AdvAll bool // header on every chunk
	Group  int  // encoded in one call with the others of the group
	With   int  // what else the state holds: 1 mode, 2 text, 4 colour, 8 extended value
}

// CSym sends one line.
type CSym struct {
	X, Sub, K int // transfer, run of it, chunk; X<0: pass-through line K
	V         int // version of the payload
	GapMs     int
	Drop      bool
	DelayMs   int
	Dup       int // sent again after Dup-1 ms
}

type CSender struct {
	StartMs int
	Syms    []CSym
}

type ChunksPlan struct {
	Defs      []CDef
	Senders   []CSender
	Cuts      []int // the batch receiver converts what it has after so many lines
	BatchMs   int   // ... or after so many ms
	Restart   []int // serialise and restore before these lines
	RestartP  int   // every n-th line
	Crash     []int // the state is lost before these lines
	StallMs   int
	EncodeTwo bool
	Split     bool // one message per image
}

type cline struct {
	text    string
	key     string // targets and format; "" for other lines
	ids     []uint32
	typ     int
	idx     int
	max     int
	adv     bool
	w, h    int
	off     bool
	x, y    int
	payload []byte
}

type crun struct{ lines []cline }

type cdeliv struct {
	from, at int // lines from..at had been fed
	ids      []uint32
	gfx      *rwp.HWCGfx // as delivered
	ref      *rwp.HWCGfx // what the receiver holds
	many     bool
}

type crecv struct {
	name   string
	in     chan cline
	lines  []cline
	deliv  []*cdeliv
	breaks map[int]bool // state lost before this line
	batch  bool
	err    string
}

type chunksWorld struct {
	c     *core.Ctx
	p     *ChunksPlan
	recvs []*crecv
	runs  [][]crun
	link  []*crecv
}

func init() { core.Worlds["chunks"] = &chunksWorld{} }

func (w *chunksWorld) NewPlan() any { return &ChunksPlan{} }

var cPass = []string{"HWC#1=4", "ping", "HWCt#2=|||Title", "HWCc#1=3", "Clear", "list", "", "HWCx#1=4100", `{"HWCIDs":[1],"HWCMode":{"State":4}}`, "SleepTimer=10", "nonsense", "HWCgfx#1=0:AAAA", "HWCg#1=x:AAAA", "Mem1=2", "map", `[{"FlowMessage":1}]`, "HWCg#1=1", "ack"}

func genLen(r *core.Rng) int {
	switch r.N(6) {
	case 0:
		return r.N(10)
	case 1, 2, 3:
		k := r.N(8)
		if r.P(20) {
			k = r.N(30)
		}
		n := 170*k + r.Pick(-2, -1, 0, 1, 2, 3)
		if n < 0 {
			n = 0
		}
		return n
	case 4:
		return r.N(700)
	}
	return r.N(5200)
}

func (w *chunksWorld) Gen(r *core.Rng, prop string) any {
	p := &ChunksPlan{}
	all := [][]int{{1}, {2}, {1, 2}, {2, 1}, {12}, {21}, {1, 12}, {70000}, {2, 1, 12}, {11}}
	for i := range all {
		j := r.In(i, len(all)-1)
		all[i], all[j] = all[j], all[i]
	}
	targets := all
	if r.P(40) {
		targets = [][]int{{1}, {2}, {38}}
	}
	ntgt := r.Pick(1, 2, 2, 3)
	ntyp := r.Pick(1, 1, 2, 3)
	small := r.P(50)
	nd := 1 + r.N(4)
	for i := 0; i < nd; i++ {
		d := CDef{Enc: r.P(45), IDs: targets[r.N(ntgt)], Type: r.N(ntyp), W: r.Pick(64, 64, 8, 112, 256, 1, 0, 65535), H: r.Pick(32, 32, 8, 64, 1, 0), Off: r.P(35), CLen: r.Pick(1, 2, 3, 20, 86, 169, 170)}
		if d.Off {
			d.X, d.Y = r.Pick(0, 0, 1, 5, 100, 1000), r.Pick(0, 0, 1, 5, 100)
		}
		d.Len = genLen(r)
		if small {
			d.Len = r.Pick(1, 170, 171, 340, 341, 400, 510, 511)
		}
		d.Simple = r.P(40)
		d.Max = r.Pick(0, 1, 2, 2, 3, 5)
		if r.P(5) {
			d.Max = r.N(30)
		}
		if d.Simple {
			d.Max = 2
		}
		d.AdvAll = r.P(10)
		d.Group = r.N(3)
		if r.P(20) {
			d.With = r.N(16)
		}
		p.Defs = append(p.Defs, d)
	}
	ver := 0
	if r.N(400) == 0 {
		// one large image, chunk by chunk, for each way of feeding
		d := &p.Defs[0]
		d.Enc, d.IDs = true, d.IDs[:1]
		d.Len = r.Pick(170*99, 170*100, 170*101, 170*127, 170*128, 170*129, 170*255, 170*256, 170*257, 65536, 512*64*2, 170*512+1, 170*999, 170*1000, 170*1001) + r.Pick(-1, 0, 0, 1)
		s := CSender{}
		last := d.maxIdx()
		for c := 0; c <= last; c++ {
			y := CSym{K: c}
			if r.N(last*3) == 0 {
				switch r.N(3) {
				case 0:
					y.Drop = true
				case 1:
					y.Dup = 1
				case 2:
					y.K += r.Pick(-1, 1, 100, -100, 256, -256)
				}
			}
			s.Syms = append(s.Syms, y)
		}
		p.Senders = append(p.Senders, s)
		p.RestartP = r.Pick(0, 50, 97, 128, 256)
		if r.P(50) {
			p.Cuts = []int{}
		} else {
			p.Cuts = []int{r.N(2 * last)}
		}
		return p
	}
	if r.P(50) {
		// a random history over a small alphabet
		s := CSender{}
		n := 2 + r.N(14)
		cur, k := 0, 0
		for i := 0; i < n; i++ {
			y := CSym{X: cur, K: k}
			switch r.N(10) {
			case 0, 1, 2, 3, 4: // continue
			case 5:
				y.X, y.K = r.N(nd), 0
			case 6:
				y.K = k + 1
			case 7:
				y.K = max(0, k-1)
			case 8:
				y.X = r.N(nd)
				y.K = r.Pick(k, r.N(4))
			case 9:
				y.X, y.K = -1, r.N(len(cPass))
			}
			if y.X >= 0 {
				cur, k = y.X, y.K+1
				if k > p.Defs[cur].maxIdx() && r.P(70) {
					k = 0
					if r.P(50) {
						cur = r.N(nd)
					}
				}
				if r.P(70) {
					ver++
					y.V = ver
				}
			}
			if r.P(5) {
				y.Sub = r.N(2)
			}
			s.Syms = append(s.Syms, y)
		}
		p.Senders = append(p.Senders, s)
	} else {
		// transfers over a faulty link
		ns := 1 + r.N(3)
		fault := r.Pick(0, 0, 3, 10, 25)
		for i := 0; i < ns; i++ {
			s := CSender{StartMs: r.Pick(0, 0, 1, 10)}
			gap := r.Pick(0, 0, 1, 5)
			for k := 1 + r.N(3); k > 0; k-- {
				x := r.N(nd)
				d := &p.Defs[x]
				runs := 1
				if d.Enc && len(d.IDs) > 1 {
					runs = len(d.IDs)
				}
				for sub := 0; sub < runs; sub++ {
					v := 0
					if !d.Enc {
						ver++
						v = ver
					}
					last := d.maxIdx()
					if r.P(10) {
						last = r.N(last + 1) // interrupted
					} else if r.P(10) {
						last++ // one too many
					}
					for c := 0; c <= last; c++ {
						y := CSym{X: x, Sub: sub, K: c, V: v, GapMs: gap}
						if r.P(fault) {
							switch r.N(4) {
							case 0:
								y.Drop = true
							case 1:
								y.Dup = 1 + r.Pick(0, 0, 1, 5, 20)
							case 2, 3:
								y.DelayMs = r.Pick(1, 3, 10, 40)
							}
						}
						s.Syms = append(s.Syms, y)
						if r.P(8) {
							s.Syms = append(s.Syms, CSym{X: -1, K: r.N(len(cPass)), GapMs: gap})
						}
					}
				}
			}
			p.Senders = append(p.Senders, s)
		}
	}
	nl := 0
	for _, s := range p.Senders {
		nl += len(s.Syms)
	}
	for k := r.N(4); k > 0; k-- {
		p.Cuts = append(p.Cuts, r.N(nl+1))
	}
	if r.P(15) {
		p.BatchMs = r.Pick(1, 3, 10)
	}
	switch r.N(3) {
	case 0:
		p.RestartP = 1
	case 1:
		p.RestartP = 1 + r.N(4)
	case 2:
		for k := r.N(4); k > 0; k-- {
			p.Restart = append(p.Restart, r.N(nl+1))
		}
	}
	if r.P(25) {
		for k := 1 + r.N(2); k > 0; k-- {
			p.Crash = append(p.Crash, r.N(nl+1))
		}
	}
	p.EncodeTwo = r.P(30)
	p.Split = r.P(50)
	return p
}

func (d *CDef) maxIdx() int {
	if d.Enc {
		if d.Len == 0 {
			return 0
		}
		return (d.Len - 1) / 170
	}
	return d.Max
}

func (w *chunksWorld) Normalize(prop string, plan any) {
	p := plan.(*ChunksPlan)
	if len(p.Defs) == 0 {
		p.Defs = []CDef{{}}
	}
	if len(p.Defs) > 8 {
		p.Defs = p.Defs[:8]
	}
	for i := range p.Defs {
		d := &p.Defs[i]
		if len(d.IDs) == 0 {
			d.IDs = []int{1}
		}
		if len(d.IDs) > 4 {
			d.IDs = d.IDs[:4]
		}
		seen := map[int]bool{}
		var ids []int
		for _, x := range d.IDs {
			core.Clamp(&x, 1, 1<<20)
			if !seen[x] {
				ids = append(ids, x)
			}
			seen[x] = true
		}
		d.IDs = ids
		d.Type = abs(d.Type) % 3
		core.Clamp(&d.W, 0, 1<<16)
		core.Clamp(&d.H, 0, 1<<16)
		core.Clamp(&d.X, 0, 1<<16)
		core.Clamp(&d.Y, 0, 1<<16)
		if !d.Off {
			d.X, d.Y = 0, 0
		}
		core.Clamp(&d.Len, 0, 200000)
		core.Clamp(&d.Max, 0, 1500)
		core.Clamp(&d.CLen, 1, 170)
		if d.Simple && !d.Enc {
			d.Max = 2
		}
	}
	if len(p.Senders) > 4 {
		p.Senders = p.Senders[:4]
	}
	for i := range p.Senders {
		s := &p.Senders[i]
		core.Clamp(&s.StartMs, 0, 1000)
		if len(s.Syms) > 1500 {
			s.Syms = s.Syms[:1500]
		}
		for j := range s.Syms {
			y := &s.Syms[j]
			if y.X >= len(p.Defs) {
				y.X = len(p.Defs) - 1
			}
			if y.X < -1 {
				y.X = -1
			}
			core.Clamp(&y.K, 0, 1500)
			core.Clamp(&y.Sub, 0, 10)
			core.Clamp(&y.V, 0, 1<<30)
			core.Clamp(&y.GapMs, 0, 100)
			core.Clamp(&y.DelayMs, 0, 1000)
			core.Clamp(&y.Dup, 0, 1000)
		}
	}
	core.Clamp(&p.BatchMs, 0, 1000)
	core.Clamp(&p.RestartP, 0, 1000)
}

// --- lines --------------------------------------------------------------------

var cPrefix = []string{"HWCg#", "HWCgRGB#", "HWCgGray#"}

func cTypeOf(i int) rwp.HWCGfx_ImageTypeE {
	return []rwp.HWCGfx_ImageTypeE{rwp.HWCGfx_MONO, rwp.HWCGfx_RGB16bit, rwp.HWCGfx_Gray4bit}[i]
}

func cPayload(x, k, v, n int) []byte {
	r := core.NewRng(core.Mix(uint64(x)<<40|uint64(k)<<32, uint64(v)))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 11)
	}
	return b
}

func (d *CDef) hand(x, k, v int, ids []uint32) cline {
	l := cline{ids: ids, typ: d.Type, idx: k, payload: cPayload(x, k, v, d.CLen), max: d.Max}
	if d.Enc {
		l.payload = cPayload(x, k, v+1, min(170, max(1, d.Len)))
		l.max = d.maxIdx()
	}
	l.key = cPrefix[d.Type] + joinIDs(ids)
	s := fmt.Sprintf("%s=%d", l.key, k)
	if (!d.Simple || d.Enc) && (k == 0 || d.AdvAll) {
		l.adv = true
		l.w, l.h, l.off, l.x, l.y = d.W, d.H, d.Off, d.X, d.Y
		s += fmt.Sprintf("/%d,%dx%d", l.max, d.W, d.H)
		if d.Off {
			s += fmt.Sprintf(",%d,%d", d.X, d.Y)
		}
	} else {
		l.max, l.w, l.h = 2, 64, 32
	}
	l.text = s + ":" + base64.StdEncoding.EncodeToString(l.payload)
	return l
}

func joinIDs(ids []uint32) string {
	var s []string
	for _, i := range ids {
		s = append(s, strconv.Itoa(int(i)))
	}
	return strings.Join(s, ",")
}

// cparse reads a chunk line (not the library's way).
func cparse(s string) (cline, bool) {
	l := cline{text: s, max: 2, w: 64, h: 32}
	pre := -1
	for i, p := range cPrefix {
		if strings.HasPrefix(s, p) {
			pre = i
		}
	}
	if pre < 0 {
		return l, false
	}
	l.typ = pre
	eq := strings.IndexByte(s, '=')
	co := strings.IndexByte(s, ':')
	if eq < 0 || co < eq {
		return l, false
	}
	l.key = s[:eq]
	for _, f := range strings.Split(s[len(cPrefix[pre]):eq], ",") {
		n, err := strconv.Atoi(f)
		if err != nil {
			return l, false
		}
		l.ids = append(l.ids, uint32(n))
	}
	hd := s[eq+1 : co]
	if sl := strings.IndexByte(hd, '/'); sl >= 0 {
		l.adv = true
		ps := strings.Split(hd[sl+1:], ",")
		hd = hd[:sl]
		if len(ps) != 2 && len(ps) != 4 {
			return l, false
		}
		var err error
		if l.max, err = strconv.Atoi(ps[0]); err != nil {
			return l, false
		}
		if _, err = fmt.Sscanf(ps[1], "%dx%d", &l.w, &l.h); err != nil {
			return l, false
		}
		if len(ps) == 4 {
			l.off = true
			l.x, _ = strconv.Atoi(ps[2])
			l.y, _ = strconv.Atoi(ps[3])
		}
	}
	var err error
	if l.idx, err = strconv.Atoi(hd); err != nil {
		return l, false
	}
	l.payload, err = base64.StdEncoding.DecodeString(s[co+1:])
	return l, err == nil
}

// encode has the library split the images, and checks what it made of them.
func (w *chunksWorld) encode() {
	c, p := w.c, w.p
	w.runs = make([][]crun, len(p.Defs))
	groups := map[int][]int{}
	for i := range p.Defs {
		if p.Defs[i].Enc {
			g := i + 100
			if p.EncodeTwo {
				g = p.Defs[i].Group
			}
			groups[g] = append(groups[g], i)
		}
	}
	for g := 0; g < 200; g++ {
		xs := groups[g]
		if len(xs) == 0 {
			continue
		}
		var msgs, keep []*rwp.InboundMessage
		var states []*rwp.HWCState
		with := 0
		for _, x := range xs {
			d := &p.Defs[x]
			st := &rwp.HWCState{HWCGfx: &rwp.HWCGfx{ImageType: cTypeOf(d.Type), W: uint32(d.W), H: uint32(d.H), XYoffset: d.Off, X: uint32(d.X), Y: uint32(d.Y), ImageData: cPayload(x, 999, 0, d.Len)}}
			for _, id := range d.IDs {
				st.HWCIDs = append(st.HWCIDs, uint32(id))
			}
			if d.With&1 != 0 {
				st.HWCMode = &rwp.HWCMode{State: rwp.HWCMode_ON}
			}
			if d.With&2 != 0 {
				st.HWCText = &rwp.HWCText{Title: "Title", Formatting: 7}
			}
			if d.With&4 != 0 {
				st.HWCColor = &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_RED}}
			}
			if d.With&8 != 0 {
				st.HWCExtended = &rwp.HWCExtended{Interpretation: rwp.HWCExtended_STRENGTH, Value: 500}
			}
			with |= d.With
			states = append(states, proto.Clone(st).(*rwp.HWCState))
			if len(msgs) == 0 || p.Split {
				msgs = append(msgs, &rwp.InboundMessage{})
			}
			msgs[len(msgs)-1].States = append(msgs[len(msgs)-1].States, st)
		}
		for _, m := range msgs {
			keep = append(keep, proto.Clone(m).(*rwp.InboundMessage))
		}
		lines := rawpanellib.InboundMessagesToRawPanelASCIIstrings(msgs)
		for i := range msgs {
			if !proto.Equal(keep[i], msgs[i]) {
				c.Fail("C05", "encode-mutates", "encoding changed the message")
			}
		}
		if with != 0 {
			// the other contents of the states
			var only []string
			for _, l := range lines {
				if !strings.HasPrefix(l, "HWC#") && !strings.HasPrefix(l, "HWCt#") && !strings.HasPrefix(l, "HWCc#") && !strings.HasPrefix(l, "HWCx#") {
					only = append(only, l)
				}
			}
			lines = only
		}
		// one run per target (or one for all of them), in the order of the message
		pos := 0
		for _, x := range xs {
			d := &p.Defs[x]
			want := states[slot(xs, x)]
			left := append([]uint32(nil), want.HWCIDs...)
			if d.Len == 0 && (pos >= len(lines) || !strings.HasPrefix(lines[pos], cPrefix[d.Type]+"") || !w.emptyRun(lines[pos], want)) {
				continue // nothing to send
			}
			for len(left) > 0 {
				var run crun
				for pos < len(lines) {
					l, ok := cparse(lines[pos])
					if !ok {
						c.Fail("C05", "encode", "line %q of an encoded image is not a chunk line", cut(lines[pos], 80))
						return
					}
					if l.idx != len(run.lines) || (l.idx == 0) != l.adv {
						break
					}
					run.lines = append(run.lines, l)
					pos++
					if l.idx == run.lines[0].max {
						break
					}
				}
				if len(run.lines) == 0 || run.lines[len(run.lines)-1].idx != run.lines[0].max {
					c.Fail("C05", "encode", "the lines of an image of %d bytes for %v are not numbered 0..n-1: %s", d.Len, want.HWCIDs, cut(strings.Join(lines, " | "), 400))
					return
				}
				var data []byte
				for _, l := range run.lines {
					if len(l.payload) > 170 {
						c.Fail("C05", "encode", "a line carries %d bytes", len(l.payload))
						return
					}
					if l.key != run.lines[0].key {
						c.Fail("C05", "encode", "the lines of one image have different targets or formats: %s", cut(strings.Join(lines, " | "), 400))
						return
					}
					data = append(data, l.payload...)
				}
				h := run.lines[0]
				if !bytes.Equal(data, want.HWCGfx.ImageData) {
					c.Fail("C05", "encode", "the lines of an image of %d bytes carry %d bytes that differ from it", d.Len, len(data))
					return
				}
				if cTypeOf(h.typ) != want.HWCGfx.ImageType || h.w != d.W || h.h != d.H || h.off != d.Off || h.x != d.X || h.y != d.Y {
					c.Fail("C05", "encode", "the header line %q does not describe the image %dx%d type %d offset %v %d,%d", cut(h.text, 60), d.W, d.H, d.Type, d.Off, d.X, d.Y)
					return
				}
				n := len(left)
				for _, id := range h.ids {
					for i, l := range left {
						if l == id {
							left = append(left[:i:i], left[i+1:]...)
							break
						}
					}
				}
				if n-len(left) != len(h.ids) {
					c.Fail("C05", "encode", "an image for %v was encoded for %v", want.HWCIDs, h.ids)
					return
				}
				w.runs[x] = append(w.runs[x], run)
			}
		}
		if pos != len(lines) {
			c.Fail("C05", "encode", "encoding made %d lines that belong to no image: %s", len(lines)-pos, cut(lines[pos], 100))
			return
		}
	}
}

func (w *chunksWorld) emptyRun(line string, want *rwp.HWCState) bool {
	l, ok := cparse(line)
	return ok && len(l.payload) == 0 && l.idx == 0
}

func slot(xs []int, x int) int {
	for i, y := range xs {
		if y == x {
			return i
		}
	}
	return -1
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (w *chunksWorld) line(y *CSym) cline {
	if y.X < 0 {
		return cline{text: cPass[y.K%len(cPass)]}
	}
	d := &w.p.Defs[y.X]
	if d.Enc && len(w.runs[y.X]) > 0 {
		rs := w.runs[y.X]
		run := rs[y.Sub%len(rs)]
		if y.K < len(run.lines) && y.V == 0 {
			return run.lines[y.K]
		}
		return d.hand(y.X, y.K, y.V, run.lines[0].ids)
	}
	var ids []uint32
	for _, id := range d.IDs {
		ids = append(ids, uint32(id))
	}
	return d.hand(y.X, y.K, y.V, ids)
}

// --- the run ------------------------------------------------------------------

func (w *chunksWorld) put(l cline) {
	w.c.Logf("link %s", cut(l.text, 40))
	for _, r := range w.recvs {
		r.in <- l
	}
}

func (w *chunksWorld) Run(c *core.Ctx, plan any) {
	p := plan.(*ChunksPlan)
	w.c, w.p, w.recvs = c, p, nil
	w.encode()
	if len(c.Viol) > 0 {
		return
	}
	for _, n := range []string{"batch", "stream", "json", "c"} {
		if n == "c" && !rplc.Available {
			c.Probe("no-c-wrapper")
			continue
		}
		w.recvs = append(w.recvs, &crecv{name: n, in: make(chan cline, 8000), breaks: map[int]bool{}, batch: n == "batch"})
	}
	var senders, recvs int
	pending := 0
	for i := range p.Senders {
		s := &p.Senders[i]
		senders++
		c.Go("sender", func() {
			defer func() { senders-- }()
			time.Sleep(ms(s.StartMs))
			for j := range s.Syms {
				y := &s.Syms[j]
				if y.GapMs > 0 {
					time.Sleep(ms(y.GapMs))
				} else {
					runtime.Gosched()
				}
				l := w.line(y)
				if y.Drop {
					c.Fault("line-lost")
				} else if y.DelayMs > 0 {
					c.Fault("line-delayed")
					pending++
					c.Go("link", func() { time.Sleep(ms(y.DelayMs)); w.put(l); pending-- })
				} else {
					w.put(l)
				}
				if y.Dup > 0 {
					c.Fault("line-duplicated")
					pending++
					c.Go("link", func() { time.Sleep(ms(y.Dup - 1)); w.put(l); pending-- })
				}
			}
		})
	}
	for _, r := range w.recvs {
		r := r
		recvs++
		c.Go("recv", func() {
			defer func() { recvs-- }()
			w.receive(r)
		})
	}
	for k := 0; k < 10000 && (senders > 0 || pending > 0); k++ {
		time.Sleep(10 * time.Millisecond)
	}
	for _, r := range w.recvs {
		close(r.in)
	}
	for k := 0; k < 100 && recvs > 0; k++ {
		time.Sleep(10 * time.Millisecond)
	}
	if recvs > 0 {
		c.Fail("C05", "stuck", "a receiver did not finish")
	}
}

func inList(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (w *chunksWorld) take(r *crecv, msgs []*rwp.InboundMessage, from, at int, shared bool) {
	n := 0
	for _, m := range msgs {
		for _, s := range m.GetStates() {
			if s.GetHWCGfx() == nil {
				continue
			}
			n++
			d := &cdeliv{from: from, at: at, ids: append([]uint32(nil), s.HWCIDs...), gfx: proto.Clone(s.HWCGfx).(*rwp.HWCGfx)}
			if shared {
				d.ref = s.HWCGfx
			}
			r.deliv = append(r.deliv, d)
			w.c.Logf("%s delivers %dx%d for %v, %d bytes h=%x", r.name, d.gfx.W, d.gfx.H, d.ids, len(d.gfx.ImageData), core.HashString(string(d.gfx.ImageData)))
		}
	}
}

func (w *chunksWorld) receive(r *crecv) {
	c, p := w.c, w.p
	var reader rawpanellib.ASCIIreader
	var state []byte
	var buf []string
	start := 0
	flush := func(lost bool) {
		if len(buf) > 0 && !lost {
			w.take(r, rawpanellib.RawPanelASCIIstringsToInboundMessages(buf), start, len(r.lines)-1, true)
		} else {
			// never given to the converter
			for i := start; i < len(r.lines); i++ {
				r.lines[i] = cline{text: "(lost) " + r.lines[i].text}
			}
		}
		buf, start = nil, len(r.lines)
		r.breaks[start] = true
	}
	for {
		var l cline
		var ok bool
		if r.batch && p.BatchMs > 0 {
			select {
			case l, ok = <-r.in:
			case <-time.After(ms(p.BatchMs)):
				flush(false)
				continue
			}
		} else {
			l, ok = <-r.in
		}
		if !ok {
			break
		}
		n := len(r.lines)
		crash := inList(p.Crash, n)
		restart := inList(p.Restart, n) || p.RestartP > 0 && n%p.RestartP == 0
		if crash {
			c.Fault("receiver-state-lost")
			r.breaks[n] = true
		}
		switch r.name {
		case "batch":
			if inList(p.Cuts, n) {
				flush(false)
			}
			if crash {
				flush(true)
			}
			r.lines = append(r.lines, l)
			buf = append(buf, l.text)
			continue
		case "stream":
			if crash {
				reader = rawpanellib.ASCIIreader{}
			}
			r.lines = append(r.lines, l)
			w.take(r, reader.Parse(l.text), n, n, true)
		case "json":
			if crash {
				reader = rawpanellib.ASCIIreader{}
			} else if restart {
				c.Fault("state-serialised")
				b, err := json.Marshal(reader)
				if err != nil {
					c.Fail("C05", "state-json", "the reader's state does not serialise: %v", err)
					return
				}
				reader = rawpanellib.ASCIIreader{}
				if err := json.Unmarshal(b, &reader); err != nil {
					c.Fail("C05", "state-json", "the reader's state does not parse: %v", err)
					return
				}
			}
			r.lines = append(r.lines, l)
			w.take(r, reader.Parse(l.text), n, n, true)
		case "c":
			if crash {
				state = nil
			}
			r.lines = append(r.lines, l)
			var mb []byte
			mb, state = rplc.Parse(l.text, state)
			if mb != nil {
				m := &rwp.InboundMessage{}
				if err := proto.Unmarshal(mb, m); err != nil {
					c.Fail("C05", "c-wrapper", "the C wrapper returns bytes that are no message: %v", err)
					return
				}
				w.take(r, []*rwp.InboundMessage{m}, n, n, false)
			}
		}
	}
	if r.batch {
		flush(false)
	}
}

// --- checks -------------------------------------------------------------------

func (w *chunksWorld) After(c *core.Ctx, plan any, res *runtime.SimResult) {
	if w.c != c {
		return
	}
	if !res.MainDone {
		c.Fail("C05", "stuck", "the simulation stopped before the run was over")
		return
	}
	for _, r := range w.recvs {
		if len(r.deliv) > 0 {
			c.NonTriv = true
		}
		w.check(r)
	}
	w.c = nil
}

// explains tells whether delivery d consists of exactly the chunks of the
// transfer that line p starts.
func (r *crecv) explains(p int, d *cdeliv) bool {
	h := r.lines[p]
	if h.key == "" || h.idx != 0 || p > d.at {
		return false
	}
	g := d.gfx
	if joinIDs(d.ids) != joinIDs(h.ids) || g.ImageType != cTypeOf(h.typ) || int(g.W) != h.w || int(g.H) != h.h || g.XYoffset != h.off || int(g.X) != h.x || int(g.Y) != h.y {
		return false
	}
	type st struct{ k, off int }
	if !bytes.HasPrefix(g.ImageData, h.payload) {
		return false
	}
	states := map[st]bool{{0, len(h.payload)}: true}
	for i := p; i <= d.at; i++ {
		l := r.lines[i]
		if i > p {
			if r.breaks[i] {
				return false
			}
			if l.key != h.key {
				continue
			}
			if l.idx == 0 && l.text != h.text {
				return false
			}
			for s := range states {
				if l.idx == s.k+1 && bytes.HasPrefix(g.ImageData[s.off:], l.payload) {
					states[st{s.k + 1, s.off + len(l.payload)}] = true
				}
			}
		}
		if states[st{h.max, len(g.ImageData)}] {
			return true
		}
	}
	return false
}

// cleanEnd is the last line of the clean run that line p starts, or -1.
func (r *crecv) cleanEnd(p int) int {
	h := r.lines[p]
	if h.key == "" || h.idx != 0 {
		return -1
	}
	k := 0
	if h.max == 0 {
		return p
	}
	for i := p + 1; i < len(r.lines); i++ {
		if r.breaks[i] {
			return -1
		}
		l := r.lines[i]
		if l.key == "" {
			continue
		}
		k++
		if l.key != h.key || l.idx != k {
			return -1
		}
		if k == h.max {
			return i
		}
	}
	return -1
}

func (w *chunksWorld) check(r *crecv) {
	c := w.c
	// never altered after delivery
	for i, d := range r.deliv {
		if d.ref != nil && !proto.Equal(d.ref, d.gfx) {
			c.Fail("C05", "altered", "%s: image %d was altered after it had been delivered: %d bytes then, %d bytes now", r.name, i, len(d.gfx.ImageData), len(d.ref.ImageData))
			return
		}
	}
	cand := make([][]int, len(r.deliv)) // delivery -> first lines
	for i, d := range r.deliv {
		for p := d.from; p <= d.at; p++ {
			_ = p
		}
		lo := 0
		if r.batch {
			lo = d.from
		}
		for p := lo; p <= d.at; p++ {
			if r.explains(p, d) {
				cand[i] = append(cand[i], p)
			}
		}
		if len(cand[i]) == 0 {
			c.Fail("C05", "corrupt", "%s delivered (after line %d) an image of %d bytes, %dx%d offset %v %d,%d, for %v, that is not the chunks 0..N of one transfer\n%s", r.name, d.at, len(d.gfx.ImageData), d.gfx.W, d.gfx.H, d.gfx.XYoffset, d.gfx.X, d.gfx.Y, d.ids, r.history(d.at))
			return
		}
	}
	// every clean run has its image
	owner := map[int]int{} // first line -> delivery
	used := make([]int, len(r.deliv))
	for i := range used {
		used[i] = -1
	}
	var clean []int
	for p := range r.lines {
		e := r.cleanEnd(p)
		if e < 0 {
			continue
		}
		clean = append(clean, p)
		c.Probe("clean-run")
		if !r.batch {
			var at []int
			for i, d := range r.deliv {
				if d.at == e {
					at = append(at, i)
				}
			}
			if len(at) != 1 {
				c.Fail("C05", "not-delivered", "%s: the last line of a clean run yields %d images\n%s", r.name, len(at), r.history(e))
				return
			}
			if !inList(cand[at[0]], p) {
				c.Fail("C05", "corrupt", "%s: the image at the end of a clean run (lines %d to %d) is not the one sent\n%s", r.name, p, e, r.history(e))
				return
			}
			if o, ok := owner[p]; ok && o != at[0] || used[at[0]] >= 0 {
				c.Fail("C05", "delivered-twice", "%s: one transfer was delivered twice\n%s", r.name, r.history(e))
				return
			}
			owner[p], used[at[0]] = at[0], p
		}
	}
	if len(clean) < len(r.lines) && len(r.deliv) > len(clean) {
		c.Probe("delivered-with-gaps")
	}
	// matching between deliveries and transfers: clean runs first
	var fromP func(p int, seen map[int]bool) bool
	fromP = func(p int, seen map[int]bool) bool {
		for i := range r.deliv {
			if seen[i] || !inList(cand[i], p) {
				continue
			}
			seen[i] = true
			if used[i] < 0 || fromP(used[i], seen) {
				used[i], owner[p] = p, i
				return true
			}
		}
		return false
	}
	if r.batch {
		for _, p := range clean {
			if !fromP(p, map[int]bool{}) {
				c.Fail("C05", "not-delivered", "%s: the clean run that starts with line %d yielded no image of its own\n%s", r.name, p, r.history(len(r.lines)-1))
				return
			}
		}
	}
	var fromD func(i int, seen map[int]bool) bool
	fromD = func(i int, seen map[int]bool) bool {
		for _, p := range cand[i] {
			if seen[p] {
				continue
			}
			seen[p] = true
			if o, ok := owner[p]; !ok || fromD(o, seen) {
				owner[p], used[i] = i, p
				return true
			}
		}
		return false
	}
	for i := range r.deliv {
		if used[i] < 0 && !fromD(i, map[int]bool{}) {
			c.Fail("C05", "delivered-twice", "%s: image %d (after line %d) belongs to a transfer that was delivered before\n%s", r.name, i, r.deliv[i].at, r.history(r.deliv[i].at))
			return
		}
	}
}

func (r *crecv) history(at int) string {
	var b strings.Builder
	for i := 0; i <= at && i < len(r.lines); i++ {
		if at-i > 40 {
			continue
		}
		mark := " "
		if r.breaks[i] {
			mark = "*"
		}
		fmt.Fprintf(&b, "  %s%d: %s", mark, i, cut(r.lines[i].text, 44))
		for _, d := range r.deliv {
			if d.at == i {
				fmt.Fprintf(&b, "   => image of %d bytes for %v", len(d.gfx.ImageData), d.ids)
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}
