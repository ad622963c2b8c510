package worlds

import (
	"fmt"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"vsim/core"
)

// MsgSpec describes one message compactly; UID makes it unique in its run.
type MsgSpec struct {
	K   string // kind
	UID int
	N   int // size or variant
	S   int // seed for random parts
}

// outbound kinds usable both as a binary frame and as ASCII lines
var outKindsASCII = []string{"down", "up", "press", "enc", "abs", "speed", "model", "name", "serial", "ping", "nack", "bsy", "map", "svg", "json", "msg", "mem", "sleep", "stat", "blank"}
var outKindsBin = []string{"down", "up", "press", "enc", "abs", "speed", "model", "name", "serial", "ping", "ack", "nack", "bsy", "map", "svg", "json", "msg", "mem", "sleep", "multi", "combo", "empty", "sized", "rand"}

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-,.;<>/\"'"

// filler makes n printable characters.
func filler(seed, n int) string {
	r := core.NewRng(uint64(seed)*7919 + 3)
	var b strings.Builder
	b.Grow(n)
	for b.Len() < n {
		v := r.U64()
		for j := 0; j < 10 && b.Len() < n; j++ {
			b.WriteByte(alphabet[int(v&63)])
			v >>= 6
		}
	}
	return b.String()
}

// oddText is sometimes a character that splits lines elsewhere.
func oddText(seed int) string {
	return []string{"", "", "", "a\rb", "a\tb", "a\u2028b", "a\u0085b", "\x00", "é", "日本", "\u00a0", "\x0b\x0c", "\x1a\x04", "\r\r"}[abs(seed)/7%14]
}

func noEdgeSpace(s string) string { return "x" + strings.TrimSpace(s) + "x" }

func ev(id int) *rwp.HWCEvent { return &rwp.HWCEvent{HWCID: uint32(id)} }

// bigText: more is the length of a text exactly.
const bigText = 1 << 20

func textLen(n int) int {
	n = abs(n)
	if n >= bigText {
		return (n - bigText) % 400000
	}
	return n % 3000
}

// Out builds the outbound (panel to system) message of a spec.
func (m MsgSpec) Out() *rwp.OutboundMessage {
	id := 1000 + m.UID
	switch m.K {
	case "down", "up":
		e := ev(id)
		e.Binary = &rwp.BinaryEvent{Pressed: m.K == "down", Edge: rwp.BinaryEvent_EdgeID([]int{0, 1, 2, 4, 8, 16}[abs(m.N)%6])}
		return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}
	case "press":
		a, b := ev(id), ev(id)
		a.Binary = &rwp.BinaryEvent{Pressed: true}
		b.Binary = &rwp.BinaryEvent{Pressed: false}
		return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{a, b}}
	case "enc":
		e := ev(id)
		e.Pulsed = &rwp.PulsedEvent{Value: int32(m.N%200 - 100)}
		return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}
	case "abs":
		e := ev(id)
		e.Absolute = &rwp.AbsoluteEvent{Value: uint32(abs(m.N) % 1001)}
		return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}
	case "speed":
		e := ev(id)
		e.Speed = &rwp.SpeedEvent{Value: int32(m.N%1000 - 500)}
		return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{e}}
	case "model":
		return &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Model: fmt.Sprintf("SK_M%d", id)}}
	case "name":
		return &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Name: fmt.Sprintf("Name %d", id)}}
	case "serial":
		return &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{Serial: fmt.Sprintf("S%d", id)}}
	case "ping":
		return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}
	case "ack":
		return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK}
	case "nack":
		return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_NACK}
	case "bsy":
		return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_BSY}
	case "map":
		return &rwp.OutboundMessage{HWCavailability: map[uint32]uint32{uint32(id): uint32(abs(m.N) % 50)}}
	case "svg":
		return &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: fmt.Sprintf("<svg id=%d>", id) + noEdgeSpace(filler(m.S, textLen(m.N)))}}
	case "json":
		return &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Json: fmt.Sprintf("{\"id\":%d,\"x\":\"%s\"}", id, strings.NewReplacer("\"", "").Replace(filler(m.S, textLen(m.N))))}}
	case "msg":
		return &rwp.OutboundMessage{Message: &rwp.Message{Message: fmt.Sprintf("m%d ", id) + oddText(m.S) + noEdgeSpace(filler(m.S, abs(m.N)%80))}}
	case "mem":
		return &rwp.OutboundMessage{Registers: []*rwp.Register{{Reg: rwp.Register_MEM, Id: "A", Value: uint32(id)}}}
	case "sleep":
		return &rwp.OutboundMessage{SleepTimeout: &rwp.SleepTimeout{Value: uint32(id)}}
	case "stat":
		return &rwp.OutboundMessage{SysStat: &rwp.SystemStat{CPUUsage: uint32(id), MemTotal: int32(abs(m.N) % 9999)}}
	case "multi":
		var es []*rwp.HWCEvent
		for i := 0; i < 2+abs(m.N)%6; i++ {
			e := ev(id + 100000*i)
			switch (abs(m.S) + i) % 4 {
			case 0:
				e.Binary = &rwp.BinaryEvent{Pressed: i%2 == 0}
			case 1:
				e.Pulsed = &rwp.PulsedEvent{Value: int32(i - 3)}
			case 2:
				e.Absolute = &rwp.AbsoluteEvent{Value: uint32(i * 100)}
			case 3:
				e.Speed = &rwp.SpeedEvent{Value: int32(-i)}
			}
			es = append(es, e)
		}
		return &rwp.OutboundMessage{Events: es}
	case "combo":
		e := ev(id)
		e.Binary = &rwp.BinaryEvent{Pressed: true}
		return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_FlowMsg(abs(m.N) % 5), Events: []*rwp.HWCEvent{e}, PanelInfo: &rwp.PanelInfo{Name: fmt.Sprintf("c%d", id)}}
	case "empty", "blank":
		return &rwp.OutboundMessage{}
	case "sized":
		return sized(m.UID, m.S, abs(m.N))
	case "rand":
		r := core.NewRng(uint64(m.S)*31 + 7)
		msg := &rwp.OutboundMessage{}
		RandMsg(r, msg.ProtoReflect(), 3, false)
		e := ev(id)
		e.Binary = &rwp.BinaryEvent{}
		msg.Events = append([]*rwp.HWCEvent{e}, msg.Events...)
		// What goes over the wire is what the encoder makes of it.
		b, err := proto.Marshal(msg)
		if err != nil {
			return &rwp.OutboundMessage{Events: msg.Events[:1]}
		}
		out := &rwp.OutboundMessage{}
		if proto.Unmarshal(b, out) != nil {
			return &rwp.OutboundMessage{Events: msg.Events[:1]}
		}
		return out
	}
	return &rwp.OutboundMessage{}
}

// Lines is the ASCII form of a spec (without terminator) and what each line
// means.  The pairs are written down here independently of the converter.
func (m MsgSpec) Lines() ([]string, []*rwp.OutboundMessage) {
	id := 1000 + m.UID
	o := m.Out()
	one := func(s string) ([]string, []*rwp.OutboundMessage) {
		return []string{s}, []*rwp.OutboundMessage{o}
	}
	switch m.K {
	case "down", "up":
		s := fmt.Sprintf("HWC#%d", id)
		if e := o.Events[0].Binary.Edge; e != 0 {
			s += fmt.Sprintf(".%d", e)
		}
		if m.K == "down" {
			s += "=Down"
		} else {
			s += "=Up"
		}
		return one(s)
	case "press":
		return one(fmt.Sprintf("HWC#%d=Press", id))
	case "enc":
		return one(fmt.Sprintf("HWC#%d=Enc:%d", id, o.Events[0].Pulsed.Value))
	case "abs":
		return one(fmt.Sprintf("HWC#%d=Abs:%d", id, o.Events[0].Absolute.Value))
	case "speed":
		return one(fmt.Sprintf("HWC#%d=Speed:%d", id, o.Events[0].Speed.Value))
	case "model":
		return one("_model=" + o.PanelInfo.Model)
	case "name":
		return one("_name=" + o.PanelInfo.Name)
	case "serial":
		return one("_serial=" + o.PanelInfo.Serial)
	case "ping", "nack":
		return one(m.K)
	case "bsy":
		return one("BSY")
	case "map":
		return one(fmt.Sprintf("map=%d:%d", id, o.HWCavailability[uint32(id)]))
	case "svg":
		return one("_panelTopology_svgbase=" + o.PanelTopology.Svgbase)
	case "json":
		return one("_panelTopology_HWC=" + o.PanelTopology.Json)
	case "msg":
		return one("Msg=" + o.Message.Message)
	case "mem":
		return one(fmt.Sprintf("MemA=%d", id))
	case "sleep":
		return one(fmt.Sprintf("_sleepTimer=%d", id))
	case "stat":
		return one(fmt.Sprintf("SysStat=CPUUsage:%d:MemTotal:%d", o.SysStat.CPUUsage, o.SysStat.MemTotal))
	}
	// blank and anything without an ASCII form: an empty line, no message
	return []string{""}, nil
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// sized makes an outbound message whose encoding is as close to n bytes as
// possible without exceeding it (exact for n >= 16, apart from one length per
// varint boundary).
func sized(uid, seed, n int) *rwp.OutboundMessage {
	head := fmt.Sprintf("#%d#", uid)
	if n < 14 {
		switch {
		case n >= 2:
			return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_FlowMsg(1 + uid%5)}
		default:
			return &rwp.OutboundMessage{}
		}
	}
	body := filler(seed, n)
	for _, flow := range []rwp.OutboundMessage_FlowMsg{0, 3} {
		for l := n - 4; l >= n-16 && l >= 0; l-- {
			s := head + body
			if len(s) > l {
				s = s[:l]
			}
			msg := &rwp.OutboundMessage{FlowMessage: flow, PanelTopology: &rwp.PanelTopology{Svgbase: s}}
			if proto.Size(msg) == n {
				return msg
			}
		}
	}
	l := n - 16
	if l < 0 {
		l = 0
	}
	s := head + body
	if len(s) > l {
		s = s[:l]
	}
	return &rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: s}}
}

// inbound kinds (system to panel)
var inKinds = []string{"ping", "ack", "cmd", "mode", "color", "text", "ext", "gfx", "gfxbig", "many", "reg", "empty", "adc", "rand"}

// In builds the inbound (system to panel) message of a spec.
func (m MsgSpec) In(binary bool) *rwp.InboundMessage {
	id := uint32(1000 + m.UID)
	st := func(s *rwp.HWCState) *rwp.InboundMessage {
		s.HWCIDs = []uint32{id}
		return &rwp.InboundMessage{States: []*rwp.HWCState{s}}
	}
	switch m.K {
	case "ping":
		return &rwp.InboundMessage{FlowMessage: rwp.InboundMessage_PING}
	case "ack":
		return &rwp.InboundMessage{FlowMessage: rwp.InboundMessage_ACK}
	case "cmd":
		return &rwp.InboundMessage{Command: &rwp.Command{ActivatePanel: m.N&1 != 0, SendPanelInfo: m.N&2 != 0, ClearAll: m.N&4 != 0, PanelBrightness: &rwp.Brightness{OLEDs: id, LEDs: uint32(abs(m.N) % 100)}, SetHeartBeatTimer: &rwp.HeartBeatTimer{Value: 3000}}}
	case "mode":
		return st(&rwp.HWCState{HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(abs(m.N) % 6), Output: m.N&8 != 0, BlinkPattern: uint32(abs(m.N) % 16)}})
	case "color":
		return st(&rwp.HWCState{HWCColor: &rwp.HWCColor{ColorRGB: &rwp.ColorRGB{Red: uint32(abs(m.N) % 256), Green: 10, Blue: 255}}})
	case "text":
		return st(&rwp.HWCState{HWCText: &rwp.HWCText{Title: "T" + strings.ReplaceAll(filler(m.S, abs(m.N)%40), "|", ""), IntegerValue: int32(m.N), Textline1: "a", Textline2: fmt.Sprint("b", id), Formatting: rwp.HWCText_FormattingE(abs(m.N) % 9)}})
	case "ext":
		return st(&rwp.HWCState{HWCExtended: &rwp.HWCExtended{Interpretation: rwp.HWCExtended_FADER, Value: uint32(abs(m.N) % 1000)}})
	case "gfx", "gfxbig":
		n := abs(m.N) % 1200
		if m.K == "gfxbig" {
			n = 4000 + abs(m.N)%60000
			if abs(m.S)%8 == 1 {
				n = 65400 + abs(m.N)%300
			}
			if abs(m.S)%32 == 2 {
				n = 490000 + abs(m.N)%20000
			}
		}
		return st(&rwp.HWCState{HWCGfx: &rwp.HWCGfx{W: 64, H: 32, ImageType: rwp.HWCGfx_ImageTypeE(abs(m.S) % 3), ImageData: []byte(filler(m.S, n)), XYoffset: m.S%2 == 0, X: 3, Y: 4}})
	case "many":
		msg := &rwp.InboundMessage{FlowMessage: rwp.InboundMessage_FlowMsg(abs(m.S) % 3)}
		for i := 0; i < 2+abs(m.N)%12; i++ {
			msg.States = append(msg.States, &rwp.HWCState{HWCIDs: []uint32{id, id + 1, uint32(i)}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_ON}, HWCText: &rwp.HWCText{Title: fmt.Sprint("m", i)}})
		}
		return msg
	case "reg":
		return &rwp.InboundMessage{Registers: []*rwp.Register{{Reg: rwp.Register_MEM, Id: "A", Value: id}, {Reg: rwp.Register_FLAG, Id: "3", Value: 1}}}
	case "adc":
		return st(&rwp.HWCState{PublishRawADCValues: &rwp.PublishRawADCValues{Enabled: m.N&1 == 0}})
	case "rand":
		r := core.NewRng(uint64(m.S)*37 + 11)
		msg := &rwp.InboundMessage{}
		RandMsg(r, msg.ProtoReflect(), 4, false)
		return msg
	}
	return &rwp.InboundMessage{}
}

// RandMsg fills a message with random content: any presence pattern; wild adds
// out-of-range enums and extreme integers.
func RandMsg(r *core.Rng, m protoreflect.Message, depth int, wild bool) {
	fds := m.Descriptor().Fields()
	p := r.Pick(5, 15, 40, 80)
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !r.P(p) {
			continue
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for k := r.N(4); k > 0; k-- {
				key := randScalar(r, fd.MapKey(), wild).MapKey()
				if fd.MapValue().Kind() == protoreflect.MessageKind {
					v := mp.NewValue()
					if depth > 0 {
						RandMsg(r, v.Message(), depth-1, wild)
					}
					mp.Set(key, v)
				} else {
					mp.Set(key, randScalar(r, fd.MapValue(), wild))
				}
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for k := r.N(4); k > 0; k-- {
				if fd.Kind() == protoreflect.MessageKind {
					v := l.NewElement()
					if depth > 0 {
						RandMsg(r, v.Message(), depth-1, wild)
					}
					l.Append(v)
				} else {
					l.Append(randScalar(r, fd, wild))
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			if depth <= 0 {
				continue
			}
			RandMsg(r, m.Mutable(fd).Message(), depth-1, wild)
		default:
			m.Set(fd, randScalar(r, fd, wild))
		}
	}
}

func randScalar(r *core.Rng, fd protoreflect.FieldDescriptor, wild bool) protoreflect.Value {
	small := func() int64 {
		switch r.N(6) {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return int64(r.N(16))
		case 3:
			return int64(r.N(1000))
		case 4:
			return -int64(r.N(1000))
		}
		if wild {
			return int64(r.U64() >> uint(r.N(64)))
		}
		return int64(r.N(100000))
	}
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(r.P(50))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		if wild && r.P(40) {
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(small())))
		}
		return protoreflect.ValueOfEnum(vs.Get(r.N(vs.Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(small()))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(small())
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(small()))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(small()))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(small()) / 8)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(small()) / 8)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(randString(r, wild))
	case protoreflect.BytesKind:
		n := r.Pick(0, 1, 3, 169, 170, 171, 340, 500)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.U64())
		}
		return protoreflect.ValueOfBytes(b)
	}
	return fd.Default()
}

func randString(r *core.Rng, wild bool) string {
	switch r.N(5) {
	case 0:
		return ""
	case 1:
		return fmt.Sprint(r.N(1000))
	case 2:
		if wild {
			return r.PickS("|", "||||", "\n", "a\nb", ",", ";", ":", "#", "=", "{}", "[null]", "\x00", "é", "日本", "1|2|3", "-1", "99999999999999999999")
		}
	}
	return filler(r.N(1<<20), r.N(20))
}
