package worlds

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"regexp/syntax"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	rawpanellib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"vsim/core"
)

// The converters world (C06): tasks call the four converters and the streaming
// reader with hostile input, concurrently and on shared inputs, preempted at
// any statement.  Every call must come back, and with what it returns when the
// calls are made one after another.

// WF is a field of a message on the wire.
type WF struct {
	N int
	T int    // 0 varint, 1 fixed64, 2 bytes, 3 message, 5 fixed32, 6 packed varints
	V uint64 `json:",omitempty"`
	S string `json:",omitempty"` // bytes as Latin-1
	M []WF   `json:",omitempty"`
}

type WMsg struct {
	F   []WF
	Raw string `json:",omitempty"` // appended as it is
}

const (
	cvInLines = iota
	cvOutLines
	cvInMsgs
	cvOutMsgs
	cvReader
	cvInChain // lines -> messages -> wire -> messages -> lines
	cvOutChain
	cvOps
)

type ConvCall struct {
	Op    int
	Lines []string `json:",omitempty"` // Latin-1
	Use   int      // shared lines or messages to convert, from here
	Num   int      // how many
	GapMs int      `json:",omitempty"`
}

type ConvTask struct {
	StartMs int `json:",omitempty"`
	Calls   []ConvCall
}

type ConvPlan struct {
	In, Out []WMsg
	Lines   []string
	Tasks   []ConvTask
	Cold    bool // no sequential calls before the concurrent ones
	Debug   bool
}

type convWorld struct {
	c *core.Ctx
}

func init() { core.Worlds["conv"] = &convWorld{} }

func (w *convWorld) NewPlan() any              { return &ConvPlan{} }
func (w *convWorld) Budget(prop string) uint64 { return 30_000_000 }

// --- generator ----------------------------------------------------------------

var (
	convDict  []string // words of the library's string constants
	convRegex []*syntax.Regexp
	convInts  []int64
	convOnce  sync.Once
)

// harvest reads the words, patterns and numbers the library's own source uses,
// so that generated lines come close to what it understands.
func harvest() {
	words := map[string]bool{}
	ints := map[int64]bool{}
	pats := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VSIM_REPO"), "*.go"))
	sort.Strings(files)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		ast.Inspect(a, func(n ast.Node) bool {
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
					ints[v] = true
				}
			case token.STRING:
				s, err := strconv.Unquote(l.Value)
				if err != nil || s == "" || len(s) > 4000 {
					return true
				}
				if strings.HasPrefix(s, "^") {
					if re, err := syntax.Parse(s, syntax.Perl); err == nil {
						if !pats[s] {
							pats[s] = true
							convRegex = append(convRegex, re.Simplify())
						}
					}
				}
				if len(s) <= 40 {
					words[s] = true
				}
				for _, x := range strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune("^$()|[]+*\\ \"%\n", r) }) {
					if len(x) <= 40 {
						words[x] = true
					}
				}
			}
			return true
		})
	}
	for x := range words {
		convDict = append(convDict, x)
	}
	sort.Strings(convDict)
	for x := range ints {
		convInts = append(convInts, x)
	}
	sort.Slice(convInts, func(i, j int) bool { return convInts[i] < convInts[j] })
	if len(convDict) == 0 {
		convDict = []string{"ping"}
	}
	if len(convInts) == 0 {
		convInts = []int64{1}
	}
}

func latin(b []byte) string {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}

func unlatin(s string) []byte {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return b
}

func genInt(r *core.Rng) int64 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2, 3:
		return int64(r.N(40))
	case 4:
		return convInts[r.N(len(convInts))] + int64(r.Pick(-1, 0, 0, 1))
	case 5:
		return int64(r.N(5000))
	case 6:
		return []int64{math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, math.MaxUint32, -1, 255, 256, 65535, 65536, 1 << 31, 1 << 40}[r.N(12)]
	}
	return int64(r.U64() >> uint(r.N(64)))
}

func genNumber(r *core.Rng) string {
	switch r.N(14) {
	case 0:
		return strings.Repeat(r.PickS("0", "9", "1", "00"), 1+r.N(40))
	case 1:
		return fmt.Sprintf("0%d", r.N(100))
	case 2:
		return "18446744073709551616"
	}
	n := genInt(r)
	if n < 0 {
		n = n &^ math.MinInt64
	}
	return strconv.FormatInt(n, 10)
}

func genRegex(r *core.Rng, re *syntax.Regexp, b *bytes.Buffer) {
	switch re.Op {
	case syntax.OpLiteral:
		for _, c := range re.Rune {
			b.WriteRune(c)
		}
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return
		}
		k := r.N(len(re.Rune)/2) * 2
		lo, hi := re.Rune[k], re.Rune[k+1]
		if hi > 0x7e && lo < 0x7f {
			hi = 0x7e
		}
		b.WriteRune(lo + rune(r.N(int(hi-lo)+1)))
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteByte(byte(32 + r.N(95)))
	case syntax.OpCapture:
		genRegex(r, re.Sub[0], b)
	case syntax.OpConcat:
		for _, s := range re.Sub {
			genRegex(r, s, b)
		}
	case syntax.OpAlternate:
		genRegex(r, re.Sub[r.N(len(re.Sub))], b)
	case syntax.OpQuest:
		if r.P(60) {
			genRegex(r, re.Sub[0], b)
		}
	case syntax.OpStar, syntax.OpPlus, syntax.OpRepeat:
		s := re.Sub[0]
		if s.Op == syntax.OpAnyChar || s.Op == syntax.OpAnyCharNotNL {
			p := genPayload(r)
			if re.Op != syntax.OpStar && p == "" {
				p = "x"
			}
			b.WriteString(p)
			return
		}
		if s.Op == syntax.OpCharClass && len(s.Rune) >= 2 {
			digits, comma, minus := false, false, false
			for k := 0; k+1 < len(s.Rune); k += 2 {
				if s.Rune[k] <= '0' && s.Rune[k+1] >= '9' {
					digits = true
				}
				if s.Rune[k] <= ',' && s.Rune[k+1] >= ',' {
					comma = true
				}
				if s.Rune[k] <= '-' && s.Rune[k+1] >= '-' {
					minus = true
				}
			}
			if digits && r.P(90) {
				if minus && r.P(40) {
					b.WriteString(strings.Repeat("-", 1+r.N(3)*r.N(2)))
				}
				b.WriteString(genNumber(r))
				for comma && r.P(50) {
					b.WriteString("," + r.PickS(genNumber(r), "", ","))
				}
				return
			}
		}
		n := r.N(6)
		if re.Op == syntax.OpPlus {
			n++
		}
		if re.Op == syntax.OpRepeat {
			n = re.Min + r.N(4)
		}
		for ; n > 0; n-- {
			genRegex(r, s, b)
		}
	}
}

func genPayload(r *core.Rng) string {
	switch r.N(14) {
	case 0:
		return ""
	case 1:
		return genNumber(r)
	case 2:
		return "-" + genNumber(r)
	case 3, 4, 5: // text fields
		var f []string
		for k := r.N(25); k > 0; k-- {
			switch r.N(5) {
			case 0, 1:
				f = append(f, "")
			case 2:
				f = append(f, r.PickS("Title", "a", "é", "x y", " ", "\t"))
			case 3:
				f = append(f, genNumber(r))
			case 4:
				f = append(f, fmt.Sprint(r.N(40)-5))
			}
		}
		return strings.Join(f, "|")
	case 6: // pairs
		var f []string
		for k := r.N(12); k > 0; k-- {
			f = append(f, convDict[r.N(len(convDict))], r.PickS("1", "0", "x", "", "-4.5", "1e309", "NaN", "Inf", genNumber(r)))
		}
		return strings.Join(f, r.PickS(":", ":", ";", ","))
	case 7:
		var f []string
		for k := r.N(6); k > 0; k-- {
			f = append(f, r.PickS("ASCII", "Binary", "System", "", "10.0.0.1", " x ", convDict[r.N(len(convDict))]))
		}
		return strings.Join(f, r.PickS(",", ";", "; "))
	case 8:
		b := make([]byte, r.Pick(0, 1, 2, 3, 170, 171, 500))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return base64.StdEncoding.EncodeToString(b) + r.PickS("", "", "=", "*")
	case 9, 10:
		return genJSON(r, convTypes[r.N(len(convTypes))].Descriptor(), 4)
	case 11:
		return r.PickS("{", "[", "}", "]", "null", "[null]", "{}", "[[]]", "[{}]", `{"a":`, `"`, "true", "[[[[")
	case 12:
		return convDict[r.N(len(convDict))]
	}
	b := make([]byte, r.N(30))
	for i := range b {
		b[i] = byte(r.U64())
	}
	return string(b)
}

var convTypes = []protoreflect.Message{
	(&rwp.InboundMessage{}).ProtoReflect(), (&rwp.OutboundMessage{}).ProtoReflect(), (&rwp.HWCState{}).ProtoReflect(),
	(&rwp.NetworkConfig{}).ProtoReflect(), (&rwp.Command{}).ProtoReflect(), (&rwp.HWCText{}).ProtoReflect(),
}

func genJSONOdd(r *core.Rng) string {
	switch r.N(12) {
	case 0, 1, 2:
		return "null"
	case 3:
		return "[]"
	case 4:
		return "{}"
	case 5:
		return "[null]"
	case 6:
		return `"x"`
	case 7:
		return "-1"
	case 8:
		return "1e400"
	case 9:
		return r.PickS("99999999999999999999", "1.5", "true")
	case 10:
		return strings.Repeat("[", 1+r.N(200))
	}
	return r.PickS(`"\ud800"`, "", "tru", `{"a":null}`, "[null,null]")
}

func genJSONValue(r *core.Rng, fd protoreflect.FieldDescriptor, depth int) string {
	if r.P(10) {
		return genJSONOdd(r)
	}
	switch fd.Kind() {
	case protoreflect.MessageKind:
		return genJSON(r, fd.Message(), depth-1)
	case protoreflect.BoolKind:
		return r.PickS("true", "false")
	case protoreflect.StringKind:
		return strconv.Quote(r.PickS("", "a", "Title", "x|y", "1", "\n"))
	case protoreflect.BytesKind:
		b := make([]byte, r.Pick(0, 1, 170, 171, 400))
		return strconv.Quote(base64.StdEncoding.EncodeToString(b))
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		return r.PickS("0", "1.5", "-3", "1e30")
	}
	return strconv.FormatInt(genInt(r), 10)
}

func genJSON(r *core.Rng, md protoreflect.MessageDescriptor, depth int) string {
	if r.P(4) {
		return genJSONOdd(r)
	}
	if depth <= 0 {
		return "{}"
	}
	var f []string
	p := r.Pick(3, 10, 30)
	fds := md.Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !r.P(p) {
			continue
		}
		var v string
		switch {
		case fd.IsMap():
			v = fmt.Sprintf(`{"%d":%s}`, r.N(100), r.PickS("1", "0", "null"))
		case fd.IsList():
			var e []string
			for k := r.N(4); k > 0; k-- {
				e = append(e, genJSONValue(r, fd, depth))
			}
			v = "[" + strings.Join(e, ",") + "]"
		default:
			v = genJSONValue(r, fd, depth)
		}
		f = append(f, strconv.Quote(string(fd.Name()))+":"+v)
	}
	return "{" + strings.Join(f, ",") + "}"
}

func genLine(r *core.Rng) string {
	var s string
	switch r.N(12) {
	case 0, 1, 2, 3, 4:
		if len(convRegex) > 0 {
			var b bytes.Buffer
			genRegex(r, convRegex[r.N(len(convRegex))], &b)
			s = b.String()
		}
	case 5:
		s = convDict[r.N(len(convDict))] + r.PickS("", "=", "=1", "#1=2", "=", ":", "?") + r.PickS("", genPayload(r))
	case 6, 7:
		s = genJSON(r, convTypes[r.Pick(0, 2, 2, 0, 1, 3)].Descriptor(), 4)
		if r.P(50) {
			e := []string{s}
			for k := r.N(3); k > 0; k-- {
				e = append(e, r.PickS("null", "{}", genJSON(r, convTypes[0].Descriptor(), 3), genJSONOdd(r)))
			}
			s = "[" + strings.Join(e, ",") + "]"
		}
	case 8:
		s = genPayload(r)
	case 9:
		s = cPrefix[r.N(3)] + r.PickS("1", "2", "1,2", "") + "=" + r.PickS("0", "0", "1", "2", "3", genNumber(r)) + r.PickS("", "", "/1,64x32", "/0,8x8", "/2,64x32,1,1", "/"+genNumber(r)+",1x1", "/-1,1x1") + ":" + r.PickS("AAAA", "", "!", "AA==")
	case 10:
		s = r.PickS("ping", "ack", "nack", "list", "BSY", "RDY", "map", "Clear", "", " ", "\n", "\r", "\x00", "HWC#", "HWC#1", "HWC#1=", "HWC#=1", "map=1:2", "map=:", "HWC#1.4=Down", "HWC#1=Enc:-", "HWC#1=Abs:", "HWC#1=Enc", "HWC#1=Abs:--1", "SysStat=:", "SysStat=CPUUsage", "_support=", "_serverModeLockToIP=;")
	case 11:
		b := make([]byte, r.N(60))
		for i := range b {
			b[i] = byte(r.U64())
		}
		s = string(b)
	}
	for r.P(25) {
		b := []byte(s)
		at := r.N(len(b) + 1)
		switch r.N(6) {
		case 0:
			b = b[:at]
		case 1:
			b = b[at:]
		case 2:
			b = append(b[:at:at], append([]byte(r.PickS("\n", "\r", "\x00", "\xff", "|", ",", "=", ":", "#", "{", "[", "0", " ", "-", "\"", "\\", "é")), b[at:]...)...)
		case 3:
			if at < len(b) {
				b = append(b[:at:at], b[at+1:]...)
			}
		case 4:
			b = append(b, b...)
		case 5:
			if at < len(b) {
				b[at] = byte(r.U64())
			}
		}
		s = string(b)
	}
	if r.P(1) {
		s = strings.Repeat(s+r.PickS("", ",", "|", "1"), 1+r.N(500))
	}
	if len(s) > 200000 {
		s = s[:200000]
	}
	return s
}

func genWire(r *core.Rng, md protoreflect.MessageDescriptor, depth int) []WF {
	var out []WF
	fds := md.Fields()
	p := r.Pick(3, 8, 15, 40, 80)
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !r.P(p) {
			continue
		}
		n := 1
		if fd.IsList() || fd.IsMap() {
			n = r.N(4)
		} else if r.P(3) {
			n = 2
		}
		if fd.IsList() && n > 0 && fd.Kind() != protoreflect.MessageKind && fd.Kind() != protoreflect.StringKind && fd.Kind() != protoreflect.BytesKind && r.P(50) {
			f := WF{N: int(fd.Number()), T: 6}
			for ; n > 0; n-- {
				f.M = append(f.M, WF{V: uint64(genInt(r))})
			}
			out = append(out, f)
			continue
		}
		for ; n > 0; n-- {
			out = append(out, genField(r, fd, depth))
		}
	}
	if r.P(4) {
		out = append(out, WF{N: 1 + r.N(60), T: r.Pick(0, 1, 2, 3, 5), V: r.U64()})
	}
	return out
}

func genField(r *core.Rng, fd protoreflect.FieldDescriptor, depth int) WF {
	f := WF{N: int(fd.Number())}
	if r.P(1) {
		f.T = r.Pick(0, 1, 2, 5)
		f.V = r.U64()
		return f
	}
	switch fd.Kind() {
	case protoreflect.MessageKind, protoreflect.GroupKind:
		f.T = 3
		if depth > 0 {
			f.M = genWire(r, fd.Message(), depth-1)
		}
	case protoreflect.StringKind:
		f.T = 2
		s := ""
		switch r.N(7) {
		case 0:
		case 1, 2:
			s = r.PickS("Title", "a", "x|y", "a\nb", "|", "1", "é日本", " ", "\r\n", "\x00")
		case 3:
			s = genNumber(r)
		default:
			s = genPayload(r)
			if !utf8.ValidString(s) {
				s = strings.ToValidUTF8(s, "?")
			}
		}
		f.S = latin([]byte(s))
	case protoreflect.BytesKind:
		f.T = 2
		b := make([]byte, r.Pick(0, 1, 2, 84, 169, 170, 171, 340, 341, 600))
		for i := range b {
			b[i] = byte(r.U64())
		}
		f.S = latin(b)
	case protoreflect.FloatKind, protoreflect.Fixed32Kind, protoreflect.Sfixed32Kind:
		f.T = 5
		f.V = uint64(math.Float32bits(float32([]float64{0, 1.5, -1, math.Inf(1), math.NaN(), 1e38, 3}[r.N(7)])))
	case protoreflect.DoubleKind, protoreflect.Fixed64Kind, protoreflect.Sfixed64Kind:
		f.T = 1
		f.V = math.Float64bits([]float64{0, 1.5, -1, math.Inf(1), math.NaN(), 1e300, 3}[r.N(7)])
	case protoreflect.BoolKind:
		f.V = uint64(r.Pick(0, 1, 1, 1, 7))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		f.V = uint64(int64(vs.Get(r.N(vs.Len())).Number()))
		if r.P(20) {
			f.V = uint64(genInt(r))
		}
	default:
		f.V = uint64(genInt(r))
	}
	return f
}

func (f *WF) enc(b []byte) []byte {
	t := protowire.Type(f.T)
	if f.T == 3 || f.T == 6 {
		t = protowire.BytesType
	}
	b = protowire.AppendTag(b, protowire.Number(f.N), t)
	switch f.T {
	case 0:
		b = protowire.AppendVarint(b, f.V)
	case 1:
		b = protowire.AppendFixed64(b, f.V)
	case 2:
		b = protowire.AppendBytes(b, unlatin(f.S))
	case 3:
		var in []byte
		for i := range f.M {
			in = f.M[i].enc(in)
		}
		b = protowire.AppendBytes(b, in)
	case 5:
		b = protowire.AppendFixed32(b, uint32(f.V))
	case 6:
		var in []byte
		for i := range f.M {
			in = protowire.AppendVarint(in, f.M[i].V)
		}
		b = protowire.AppendBytes(b, in)
	}
	return b
}

func (m *WMsg) bytes() []byte {
	var b []byte
	for i := range m.F {
		b = m.F[i].enc(b)
	}
	return append(b, unlatin(m.Raw)...)
}

func (w *convWorld) Gen(r *core.Rng, prop string) any {
	convOnce.Do(harvest)
	p := &ConvPlan{Cold: r.P(30), Debug: r.P(6)}
	for k := r.N(4); k > 0; k-- {
		m := WMsg{F: genWire(r, convTypes[0].Descriptor(), 5)}
		if r.P(60) {
			// a state of everything
			st := WF{N: int(stateField.Number()), T: 3, M: genWire(r, stateField.Message(), 5)}
			if r.P(80) {
				id := stateField.Message().Fields().ByName("HWCIDs")
				st.M = append(st.M, WF{N: int(id.Number()), T: 6, M: []WF{{V: uint64(1 + r.N(50))}}})
			}
			m.F = append(m.F, st)
		}
		if r.P(3) {
			m.Raw = latin([]byte{byte(r.U64()), byte(r.U64())})
		}
		p.In = append(p.In, m)
	}
	for k := r.N(4); k > 0; k-- {
		m := WMsg{F: genWire(r, convTypes[1].Descriptor(), 5)}
		if r.P(3) {
			m.Raw = latin([]byte{byte(r.U64()), byte(r.U64())})
		}
		p.Out = append(p.Out, m)
	}
	for k := r.N(6); k > 0; k-- {
		p.Lines = append(p.Lines, latin([]byte(genLine(r))))
	}
	for k := 1 + r.N(5); k > 0; k-- {
		t := ConvTask{StartMs: r.Pick(0, 0, 0, 1)}
		for i := 1 + r.N(5); i > 0; i-- {
			cl := ConvCall{Op: r.N(cvOps), GapMs: r.Pick(0, 0, 0, 0, 1)}
			switch cl.Op {
			case cvInMsgs, cvOutMsgs:
				cl.Use, cl.Num = r.N(4), 1+r.N(3)
			default:
				if r.P(35) {
					cl.Use, cl.Num = r.N(6), 1+r.N(4)
				} else {
					for n := 1 + r.N(4); n > 0; n-- {
						cl.Lines = append(cl.Lines, latin([]byte(genLine(r))))
					}
				}
			}
			t.Calls = append(t.Calls, cl)
		}
		p.Tasks = append(p.Tasks, t)
	}
	return p
}

var stateField = (&rwp.InboundMessage{}).ProtoReflect().Descriptor().Fields().ByName("States")

func normWF(fs []WF, depth int) []WF {
	if depth > 40 {
		return nil
	}
	for i := range fs {
		core.Clamp(&fs[i].N, 1, 1<<20)
		core.Clamp(&fs[i].T, 0, 6)
		if fs[i].T == 4 {
			fs[i].T = 0
		}
		fs[i].M = normWF(fs[i].M, depth+1)
	}
	return fs
}

func (w *convWorld) Normalize(prop string, plan any) {
	p := plan.(*ConvPlan)
	for i := range p.In {
		p.In[i].F = normWF(p.In[i].F, 0)
	}
	for i := range p.Out {
		p.Out[i].F = normWF(p.Out[i].F, 0)
	}
	if len(p.Tasks) > 10 {
		p.Tasks = p.Tasks[:10]
	}
	for i := range p.Tasks {
		core.Clamp(&p.Tasks[i].StartMs, 0, 1000)
		for j := range p.Tasks[i].Calls {
			cl := &p.Tasks[i].Calls[j]
			core.Clamp(&cl.Op, 0, cvOps-1)
			core.Clamp(&cl.Use, 0, 100)
			core.Clamp(&cl.Num, 0, 100)
			core.Clamp(&cl.GapMs, 0, 1000)
		}
	}
}

// --- the run ------------------------------------------------------------------

type cvInputs struct {
	in    []*rwp.InboundMessage
	out   []*rwp.OutboundMessage
	lines []string
	own   [][][]string
}

type cvResult struct {
	lines []string
	in    []*rwp.InboundMessage
	out   []*rwp.OutboundMessage
	cuts  []int
	panic string
	done  bool
}

func (w *convWorld) inputs(p *ConvPlan) *cvInputs {
	x := &cvInputs{}
	for i := range p.In {
		m := &rwp.InboundMessage{}
		if proto.Unmarshal(p.In[i].bytes(), m) == nil {
			x.in = append(x.in, m)
		}
	}
	for i := range p.Out {
		m := &rwp.OutboundMessage{}
		if proto.Unmarshal(p.Out[i].bytes(), m) == nil {
			x.out = append(x.out, m)
		}
	}
	for _, l := range p.Lines {
		x.lines = append(x.lines, string(unlatin(l)))
	}
	for _, t := range p.Tasks {
		var cs [][]string
		for _, cl := range t.Calls {
			var ls []string
			for _, l := range cl.Lines {
				ls = append(ls, string(unlatin(l)))
			}
			cs = append(cs, ls)
		}
		x.own = append(x.own, cs)
	}
	return x
}

func cvSub[T any](xs []T, from, n int) []T {
	if from > len(xs) {
		from = len(xs)
	}
	if n > len(xs)-from {
		n = len(xs) - from
	}
	return xs[from : from+n : from+n]
}

var cvNames = []string{"RawPanelASCIIstringsToInboundMessages", "RawPanelASCIIstringsToOutboundMessages", "InboundMessagesToRawPanelASCIIstrings", "OutboundMessagesToRawPanelASCIIstrings", "ASCIIreader.Parse", "lines->InboundMessages->lines", "lines->OutboundMessages->lines"}

func (w *convWorld) call(x *cvInputs, task, idx int, cl *ConvCall) (res *cvResult) {
	res = &cvResult{}
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 3000)
			n := runtime.Stack(buf, false)
			res.panic = fmt.Sprintf("%v\n%s", e, libFrames(string(buf[:n])))
			res.done = true
		}
	}()
	lines := cvSub(x.lines, cl.Use, cl.Num)
	if len(x.own[task][idx]) > 0 {
		lines = x.own[task][idx]
	}
	switch cl.Op {
	case cvInLines:
		res.in = rawpanellib.RawPanelASCIIstringsToInboundMessages(lines)
	case cvOutLines:
		res.out = rawpanellib.RawPanelASCIIstringsToOutboundMessages(lines)
	case cvInMsgs:
		res.lines = rawpanellib.InboundMessagesToRawPanelASCIIstrings(cvSub(x.in, cl.Use, cl.Num))
	case cvOutMsgs:
		res.lines = rawpanellib.OutboundMessagesToRawPanelASCIIstrings(cvSub(x.out, cl.Use, cl.Num))
	case cvReader:
		var rd rawpanellib.ASCIIreader
		for _, l := range lines {
			res.in = append(res.in, rd.Parse(l)...)
			res.cuts = append(res.cuts, len(res.in))
		}
	case cvInChain:
		res.in = rawpanellib.RawPanelASCIIstringsToInboundMessages(lines)
		var again []*rwp.InboundMessage
		for _, m := range res.in {
			if b, err := proto.Marshal(m); err == nil && m != nil {
				m2 := &rwp.InboundMessage{}
				if proto.Unmarshal(b, m2) == nil {
					again = append(again, m2)
				}
			}
		}
		res.lines = rawpanellib.InboundMessagesToRawPanelASCIIstrings(again)
	case cvOutChain:
		res.out = rawpanellib.RawPanelASCIIstringsToOutboundMessages(lines)
		var again []*rwp.OutboundMessage
		for _, m := range res.out {
			if b, err := proto.Marshal(m); err == nil && m != nil {
				m2 := &rwp.OutboundMessage{}
				if proto.Unmarshal(b, m2) == nil {
					again = append(again, m2)
				}
			}
		}
		res.lines = rawpanellib.OutboundMessagesToRawPanelASCIIstrings(again)
	}
	res.done = true
	return res
}

// libFrames keeps the functions of a stack, without addresses.
func libFrames(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, ".go:"); i > 0 && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/worlds/") {
			l = strings.TrimSpace(l)
			if k := strings.IndexByte(l, ' '); k > 0 {
				l = l[:k]
			}
			out = append(out, filepath.Base(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " < ")
}

// snap is the result as it is now.
func (r *cvResult) snap() *cvResult {
	s := &cvResult{panic: r.panic, done: r.done, cuts: r.cuts}
	for _, l := range r.lines {
		s.lines = append(s.lines, strings.Clone(l))
	}
	for _, m := range r.in {
		if m == nil {
			s.in = append(s.in, nil)
			continue
		}
		s.in = append(s.in, proto.Clone(m).(*rwp.InboundMessage))
	}
	for _, m := range r.out {
		if m == nil {
			s.out = append(s.out, nil)
			continue
		}
		s.out = append(s.out, proto.Clone(m).(*rwp.OutboundMessage))
	}
	return s
}

func (r *cvResult) hasNil() bool {
	for _, m := range r.in {
		if m == nil {
			return true
		}
	}
	for _, m := range r.out {
		if m == nil {
			return true
		}
	}
	return false
}

// sortMaps puts the availability lines, which come in the order of a map, into
// an order.
func sortMaps(ls []string) []string {
	out := append([]string(nil), ls...)
	for i := 0; i < len(out); {
		j := i
		for j < len(out) && strings.HasPrefix(out[j], "map=") {
			j++
		}
		if j > i {
			sort.Strings(out[i:j])
			i = j
		} else {
			i++
		}
	}
	return out
}

func (a *cvResult) diff(b *cvResult) string {
	if a.panic != "" || b.panic != "" {
		if (a.panic == "") != (b.panic == "") {
			return "one panics, the other doesn't"
		}
		return ""
	}
	la, lb := sortMaps(a.lines), sortMaps(b.lines)
	if len(la) != len(lb) {
		return fmt.Sprintf("%d lines and %d lines", len(la), len(lb))
	}
	for i := range la {
		if la[i] != lb[i] {
			return fmt.Sprintf("line %q and line %q", cut(la[i], 200), cut(lb[i], 200))
		}
	}
	if len(a.in) != len(b.in) || len(a.out) != len(b.out) {
		return fmt.Sprintf("%d and %d messages", len(a.in)+len(a.out), len(b.in)+len(b.out))
	}
	for i := range a.in {
		if !proto.Equal(a.in[i], b.in[i]) {
			return fmt.Sprintf("message {%s} and message {%s}", cut(fmt.Sprint(a.in[i]), 200), cut(fmt.Sprint(b.in[i]), 200))
		}
	}
	for i := range a.out {
		if !proto.Equal(a.out[i], b.out[i]) {
			return fmt.Sprintf("message {%s} and message {%s}", cut(fmt.Sprint(a.out[i]), 200), cut(fmt.Sprint(b.out[i]), 200))
		}
	}
	for i := range a.cuts {
		if i < len(b.cuts) && a.cuts[i] != b.cuts[i] {
			return "the reader yields its messages at different lines"
		}
	}
	return ""
}

func (r *cvResult) logKey() string {
	n := 0
	for _, l := range r.lines {
		n += len(l)
	}
	return fmt.Sprintf("%d lines (%d bytes), %d/%d messages, panic=%v", len(r.lines), n, len(r.in), len(r.out), r.panic != "")
}

func (w *convWorld) sequential(p *ConvPlan, reverse bool) [][]*cvResult {
	x := w.inputs(p)
	out := make([][]*cvResult, len(p.Tasks))
	for i := range p.Tasks {
		out[i] = make([]*cvResult, len(p.Tasks[i].Calls))
	}
	for k := range p.Tasks {
		i := k
		if reverse {
			i = len(p.Tasks) - 1 - k
		}
		n := len(p.Tasks[i].Calls)
		for l := 0; l < n; l++ {
			j := l
			if reverse {
				j = n - 1 - l
			}
			out[i][j] = w.call(x, i, j, &p.Tasks[i].Calls[j]).snap()
		}
	}
	return out
}

func (w *convWorld) judge(where string, i, j int, p *ConvPlan, r *cvResult) {
	cl := &p.Tasks[i].Calls[j]
	if r.panic != "" {
		w.c.Fail("C06", "panic", "%s panics (%s, task %d call %d): %s", cvNames[cl.Op], where, i, j, r.panic)
	}
	if r.hasNil() {
		w.c.Fail("C06", "nil-message", "%s returns a nil message (%s, task %d call %d: %d messages)", cvNames[cl.Op], where, i, j, len(r.in)+len(r.out))
	}
}

func (w *convWorld) Run(c *core.Ctx, plan any) {
	p := plan.(*ConvPlan)
	w.c = c
	rawpanellib.DebugRWPhelpers = false
	zero(&rawpanellib.DebugRWPhelpersMU)
	rawpanellib.DebugRWPhelpers = p.Debug
	defer func() { rawpanellib.DebugRWPhelpers = false }()
	if p.Debug {
		c.Probe("debug-output")
	}
	var before [][]*cvResult
	if !p.Cold {
		before = w.sequential(p, false)
	} else {
		c.Probe("cold-start")
	}
	x := w.inputs(p)
	if n := len(p.In) - len(x.in) + len(p.Out) - len(x.out); n > 0 {
		c.Faults["undecodable-message"] += n
	}
	res := make([][]*cvResult, len(p.Tasks))
	snaps := make([][]*cvResult, len(p.Tasks))
	left := len(p.Tasks)
	for i := range p.Tasks {
		i := i
		t := &p.Tasks[i]
		res[i] = make([]*cvResult, len(t.Calls))
		snaps[i] = make([]*cvResult, len(t.Calls))
		c.Go("task", func() {
			defer func() { left-- }()
			if t.StartMs > 0 {
				time.Sleep(ms(t.StartMs))
			}
			for j := range t.Calls {
				if t.Calls[j].GapMs > 0 {
					time.Sleep(ms(t.Calls[j].GapMs))
				} else {
					runtime.Gosched()
				}
				r := w.call(x, i, j, &t.Calls[j])
				res[i][j], snaps[i][j] = r, r.snap()
				c.Probe(cvNames[t.Calls[j].Op])
				c.Logf("task %d call %d %s: %s", i, j, cvNames[t.Calls[j].Op], r.logKey())
			}
		})
	}
	for k := 0; k < 1000 && left > 0; k++ {
		time.Sleep(10 * time.Millisecond)
	}
	if left > 0 {
		c.Fail("C06", "stuck", "%d tasks did not come back from their calls", left)
		return
	}
	after := w.sequential(p, true)
	for i := range p.Tasks {
		for j := range p.Tasks[i].Calls {
			op := cvNames[p.Tasks[i].Calls[j].Op]
			ref := after[i][j]
			w.judge("one after another", i, j, p, ref)
			if before != nil {
				w.judge("one after another", i, j, p, before[i][j])
				if d := before[i][j].diff(ref); d != "" {
					c.Fail("C06", "order-dependent", "%s: the same call, made one after another with the others, first yields %s", op, d)
				}
			}
			w.judge("concurrently", i, j, p, snaps[i][j])
			if d := snaps[i][j].diff(ref); d != "" {
				c.Fail("C06", "concurrent", "%s (task %d call %d): concurrently and one after another it yields %s", op, i, j, d)
			} else if d := res[i][j].diff(ref); d != "" {
				c.Fail("C06", "altered", "%s (task %d call %d): what it returned was altered later: %s", op, i, j, d)
			}
			if len(ref.lines)+len(ref.in)+len(ref.out) > 0 {
				c.NonTriv = true
			}
		}
	}
}

func (w *convWorld) After(c *core.Ctx, plan any, res *runtime.SimResult) {
	if !res.MainDone {
		c.Fail("C06", "stuck", "a converter blocks for ever")
	}
}

func zero[T any](p *T) {
	var z T
	*p = z
}
