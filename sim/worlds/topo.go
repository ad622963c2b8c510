package worlds

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	randv2 "math/rand/v2"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	rawpanellib "github.com/SKAARHOJ/rawpanel-lib"
	"github.com/SKAARHOJ/rawpanel-lib/topology"

	"vsim/core"
)

// The topology world (C14): a topology goes through a history of
// transformations, while the simulator decides what the clock shows, in which
// order maps are walked and which random numbers are drawn (small ones, the
// same ones again, zero).  A model of the topology goes along.

type TSub struct {
	T             string
	X, Y, W, H, R int
	Rx, Ry, Idx   int
	Style         string
}
type TDisp struct {
	W, H, Sub, Shrink, Border int
	Type                      string
}
type TDef struct {
	W, H, Subidx       int
	Out, In, Desc, Ext string
	Render             string
	Rotate             float32
	Disp               *TDisp `json:",omitempty"`
	Sub                []TSub `json:",omitempty"`
	EmptySub           bool   `json:",omitempty"` // an empty list instead of none
}
type TComp struct {
	Id, Type, Par, Yang uint32
	X, Y                int
	Txt                 string
	Ov                  *TDef `json:",omitempty"`
}
type TType struct {
	Id  uint32
	Def TDef
}
type TOp struct {
	Op    string // seq, rnd, clean, json, legacy
	WaitN int64  // ns the clock advances before
	Draws []uint32
}
type TopoPlan struct {
	Title  string
	Comps  []TComp
	Types  []TType
	NilHW  bool
	Ops    []TOp
	Others []*TopoPlan `json:",omitempty"` // further topologies in the same process
}

type topoWorld struct{ c *core.Ctx }

func init() { core.Worlds["topology"] = &topoWorld{} }

func (w *topoWorld) NewPlan() any              { return &TopoPlan{} }
func (w *topoWorld) Budget(prop string) uint64 { return 20_000_000 }

const markerType = 250

func tStr(r *core.Rng) string {
	return r.PickS("", "", "A", "Label|Two", "<b>&\"'</b>", "é日本\u2028", "\\", "\t\n", "x{0}", "{\"a\":1}", "\ufffd", "null", " ", "0", filler(r.N(1<<20), r.N(12)))
}

func tInt(r *core.Rng) int {
	switch r.N(6) {
	case 0, 1:
		return 0
	case 2:
		return r.N(1000)
	case 3:
		return -r.N(1000)
	case 4:
		return r.Pick(1, -1, 2, 255, 65536, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1<<53+1)
	}
	return r.N(10)
}

func tDef(r *core.Rng) TDef {
	p := r.Pick(10, 50, 90)
	d := TDef{}
	set := func(i *int) {
		if r.P(p) {
			*i = tInt(r)
		}
	}
	str := func(s *string, xs ...string) {
		if r.P(p) {
			*s = r.PickS(append(xs, tStr(r))...)
		}
	}
	set(&d.W)
	set(&d.H)
	set(&d.Subidx)
	str(&d.Out, "rgb", "mono", "rg", "")
	str(&d.In, "b", "b4", "pb", "av", "iv", "gpi", "b,p")
	str(&d.Desc)
	str(&d.Ext, "steps", "pos")
	str(&d.Render, "txt", "hwcid", "txt,hwcid")
	if r.P(p) {
		d.Rotate = []float32{0, 90, -45.5, 0.1, 1e-30, 3e38, 1.0 / 3, float32(math.Copysign(0, -1)), math.SmallestNonzeroFloat32, 16777217}[r.N(10)]
	}
	if r.P(p) {
		d.Disp = &TDisp{}
		set(&d.Disp.W)
		set(&d.Disp.H)
		set(&d.Disp.Sub)
		set(&d.Disp.Shrink)
		set(&d.Disp.Border)
		str(&d.Disp.Type, "gray", "color", "text")
	}
	if r.P(p) {
		for k := r.N(4); k > 0; k-- {
			s := TSub{}
			str(&s.T, "r", "c", "d")
			for _, i := range []*int{&s.X, &s.Y, &s.W, &s.H, &s.R, &s.Rx, &s.Ry, &s.Idx} {
				set(i)
			}
			str(&s.Style, "fill:red")
			d.Sub = append(d.Sub, s)
		}
		d.EmptySub = len(d.Sub) == 0 && r.P(50)
	}
	return d
}

func (w *topoWorld) Gen(r *core.Rng, prop string) any {
	p := w.gen(r)
	if r.P(10) {
		for n := 1 + r.N(2); n > 0; n-- {
			p.Others = append(p.Others, w.gen(r))
		}
		if r.P(75) { // at the same time
			for _, o := range append([]*TopoPlan{p}, p.Others...) {
				for i := range o.Ops {
					o.Ops[i].WaitN = 0
				}
			}
		}
	}
	return p
}

func (w *topoWorld) gen(r *core.Rng) *TopoPlan {
	p := &TopoPlan{Title: tStr(r), NilHW: r.P(10)}
	nt := r.Pick(0, 1, 1, 2, 3, 5, 8, 15)
	if r.P(3) {
		nt = 240 + r.N(30)
	} else if r.P(10) {
		nt = r.N(60)
	}
	same := tDef(r)
	dense := r.P(50)
	for i := 0; i < nt; i++ {
		t := TType{Id: uint32(1 + r.N(4000))}
		if dense {
			t.Id = uint32(1 + r.N(2*nt))
		}
		switch r.N(25) {
		case 0:
			t.Id = uint32(r.U64())
		case 1:
			t.Id = uint32(1) << uint(r.N(32))
		case 2:
			t.Id = uint32(r.Pick(markerType-1, markerType+1, math.MaxUint32, 1000000, 999999, 1))
		}
		if nt > 40 || r.P(20) {
			t.Def = same
			t.Def.W = i * r.N(2)
		} else {
			t.Def = tDef(r)
		}
		p.Types = append(p.Types, t)
	}
	marks := r.Pick(0, 0, 10, 30, 60, 100)
	if marks > 0 {
		p.Types = append(p.Types, TType{Id: markerType, Def: tDef(r)})
	}
	nc := r.Pick(0, 1, 2, 3, 4, 6, 10, 25)
	if r.P(1) {
		nc = r.Pick(100, 255, 256, 257, 300)
	}
	for i := 0; i < nc; i++ {
		cm := TComp{Id: uint32(i + 1), X: tInt(r), Y: tInt(r), Txt: tStr(r)}
		if r.P(8) {
			cm.Id = uint32(r.U64() >> uint(r.N(64)))
		}
		if r.P(5) && i > 0 {
			cm.Id = p.Comps[r.N(i)].Id
		}
		if len(p.Types) > 0 && r.P(88) {
			cm.Type = p.Types[r.N(len(p.Types))].Id
		}
		if r.P(marks) {
			cm.Type = markerType
		}
		if r.P(25) {
			d := tDef(r)
			cm.Ov = &d
		}
		if r.P(15) {
			cm.Par = uint32(r.U64() >> uint(r.N(64)))
		}
		if r.P(15) {
			cm.Yang = uint32(r.U64() >> uint(r.N(64)))
		}
		p.Comps = append(p.Comps, cm)
	}
	if marks > 0 && nc > 0 && r.P(40) {
		p.Comps[0].Type = markerType
		p.Comps[nc-1].Type = markerType
		if nc > 2 && r.P(50) {
			k := r.N(nc - 1)
			p.Comps[k].Type, p.Comps[k+1].Type = markerType, markerType
		}
	}
	for k := 1 + r.N(5); k > 0; k-- {
		o := TOp{Op: r.PickS("seq", "seq", "rnd", "rnd", "rnd", "clean", "clean", "json", "legacy"), WaitN: int64(r.U64() >> uint(20+r.N(40)))}
		if o.Op == "rnd" && r.P(65) {
			n := 1 + r.N(2*len(p.Types)+2)
			if n > 80 {
				n = 80
			}
			span := r.Pick(2, 4, 10, 300, 1000000)
			for i := 0; i < n; i++ {
				switch {
				case r.P(8):
					o.Draws = append(o.Draws, uint32(r.Pick(0, 0, 1, markerType, 999999)))
				case i > 0 && r.P(30):
					o.Draws = append(o.Draws, o.Draws[r.N(i)])
				case len(p.Types) > 0 && r.P(25):
					o.Draws = append(o.Draws, p.Types[r.N(len(p.Types))].Id)
				default:
					o.Draws = append(o.Draws, uint32(r.N(span)))
				}
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func validUTF8(s *string) {
	if !utf8.ValidString(*s) {
		*s = strings.ToValidUTF8(*s, "?")
	}
}

func normDef(d *TDef) {
	if f := float64(d.Rotate); math.IsNaN(f) || math.IsInf(f, 0) {
		d.Rotate = 0
	}
	for _, s := range []*string{&d.Out, &d.In, &d.Desc, &d.Ext, &d.Render} {
		validUTF8(s)
	}
	if d.Disp != nil {
		validUTF8(&d.Disp.Type)
	}
	for i := range d.Sub {
		validUTF8(&d.Sub[i].T)
		validUTF8(&d.Sub[i].Style)
	}
}

func (w *topoWorld) Normalize(prop string, plan any) {
	p := plan.(*TopoPlan)
	w.normalize(p)
	if len(p.Others) > 4 {
		p.Others = p.Others[:4]
	}
	for i := range p.Others {
		if p.Others[i] == nil {
			p.Others[i] = &TopoPlan{}
		}
		p.Others[i].Others = nil
		w.normalize(p.Others[i])
	}
}

func (w *topoWorld) normalize(p *TopoPlan) {
	validUTF8(&p.Title)
	seen := map[uint32]bool{}
	var ts []TType
	for _, t := range p.Types {
		if t.Id != 0 && !seen[t.Id] && len(ts) < 400 {
			seen[t.Id] = true
			normDef(&t.Def)
			ts = append(ts, t)
		}
	}
	if len(p.Comps) > 400 {
		p.Comps = p.Comps[:400]
	}
	for i := range p.Comps {
		cm := &p.Comps[i]
		if cm.Type != 0 && !seen[cm.Type] {
			seen[cm.Type] = true
			ts = append(ts, TType{Id: cm.Type})
		}
		validUTF8(&cm.Txt)
		if cm.Ov != nil {
			normDef(cm.Ov)
		}
	}
	p.Types = ts
	if len(p.Ops) > 20 {
		p.Ops = p.Ops[:20]
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		if o.WaitN < 0 {
			o.WaitN = 0
		}
		o.WaitN %= int64(time.Hour) * 1000
		if len(o.Draws) > 1000 {
			o.Draws = o.Draws[:1000]
		}
	}
}

func (d *TDef) build() topology.TopologyHWcTypeDef {
	out := topology.TopologyHWcTypeDef{W: d.W, H: d.H, Out: d.Out, In: d.In, Desc: d.Desc, Ext: d.Ext, Subidx: d.Subidx, Rotate: d.Rotate, Render: d.Render}
	if d.Disp != nil {
		out.Disp = &topology.TopologyHWcTypeDef_Display{W: d.Disp.W, H: d.Disp.H, Subidx: d.Disp.Sub, Type: d.Disp.Type, Shrink: d.Disp.Shrink, Border: d.Disp.Border}
	}
	for _, s := range d.Sub {
		out.Sub = append(out.Sub, topology.TopologyHWcTypeDefSubEl{ObjType: s.T, X: s.X, Y: s.Y, W: s.W, H: s.H, R: s.R, Rx: s.Rx, Ry: s.Ry, Style: s.Style, Idx: s.Idx})
	}
	if d.EmptySub && out.Sub == nil {
		out.Sub = []topology.TopologyHWcTypeDefSubEl{}
	}
	return out
}

func (p *TopoPlan) build() *topology.Topology {
	t := &topology.Topology{Title: p.Title, TypeIndex: map[uint32]topology.TopologyHWcTypeDef{}}
	for i := range p.Types {
		t.TypeIndex[p.Types[i].Id] = p.Types[i].Def.build()
	}
	if !p.NilHW {
		t.HWc = []topology.TopologyHWcomponent{}
	}
	for i := range p.Comps {
		cm := &p.Comps[i]
		h := topology.TopologyHWcomponent{Id: cm.Id, X: cm.X, Y: cm.Y, Txt: cm.Txt, Type: cm.Type, UIparent: cm.Par, UIyang: cm.Yang}
		if cm.Ov != nil {
			d := cm.Ov.build()
			h.TypeOverride = &d
		}
		t.HWc = append(t.HWc, h)
	}
	return t
}

// flat writes a value down completely, field by field; empty and absent lists
// are the same, absent and empty objects are not.
func flat(v any) string {
	var b strings.Builder
	flatTo(&b, reflect.ValueOf(v))
	return b.String()
}

func flatTo(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		flatTo(b, v.Elem())
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Type == reflect.TypeOf(sync.RWMutex{}) || f.Type == reflect.TypeOf(sync.Mutex{}) || !f.IsExported() {
				continue
			}
			b.WriteString(f.Name + ":")
			flatTo(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			flatTo(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var es []string
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			flatTo(&e, it.Key())
			e.WriteByte('=')
			flatTo(&e, it.Value())
			es = append(es, e.String())
		}
		sort.Strings(es)
		b.WriteString("map[" + strings.Join(es, " ") + "]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == 0 {
			f = 0 // no negative zero
		}
		fmt.Fprintf(b, "%v", f)
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}

// view is what a user of the topology sees, without the type numbers.
type tview struct {
	comps []string // each component, type number left out
	defs  []string // what its type resolves to
	off   []bool   // disabled
	types []string // definitions of the index, sorted
	gets  string
}

func (w *topoWorld) view(t *topology.Topology) *tview {
	v := &tview{}
	var gets []string
	for k := range t.HWc {
		h := t.HWc[k] // a copy
		v.off = append(v.off, h.Type == 0)
		base := t.TypeIndex[h.Type]
		def := flat(&base)
		full := t.GetTypeDefWithOverride(&h)
		def += flat(&full)
		def += flat(t.GetHWCTypeDefinition(k))
		v.defs = append(v.defs, def)
		id := h.Id
		d1, err := t.GetHWCtype(id)
		x, y := t.GetHWCxy(id)
		c2 := t.GetHWCDefinitionFromHWCid(int(id))
		cc := *c2
		cc.Type = 0
		gets = append(gets, fmt.Sprint(err), flat(d1), flat(t.GetHWCTypeDefinitionFromHWCid(int(id))), fmt.Sprint(x, y), t.GetHWCtext(id), flat(&cc))
		h.Type = 0
		v.comps = append(v.comps, flat(&h))
	}
	gets = append(gets, fmt.Sprint(t.GetHWCs(), t.GetHWCsWithDisplay()))
	v.gets = strings.Join(gets, "\n")
	for _, d := range t.TypeIndex {
		v.types = append(v.types, flat(&d))
	}
	sort.Strings(v.types)
	return v
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			o := "nothing"
			if i < len(b) {
				o = b[i]
			}
			return fmt.Sprintf("number %d was %s, is %s", i, cut(a[i], 300), cut(o, 300))
		}
	}
	return fmt.Sprintf("there were %d, there are %d", len(a), len(b))
}

func sameS(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *topoWorld) Run(c *core.Ctx, plan any) {
	p := plan.(*TopoPlan)
	w.c = c
	defer func() { rand.SimRand, randv2.SimRand = nil, nil }()
	left := len(p.Others)
	for i := range p.Others {
		i := i
		c.Go("other-topology", func() {
			w.history(c, p.Others[i])
			left--
		})
	}
	w.history(c, p)
	for left > 0 && len(c.Viol) == 0 { // each of them ends by itself
		time.Sleep(100 * time.Minute)
	}
	if len(p.Others) > 0 {
		c.Probe("several-topologies")
	}
}

func (w *topoWorld) history(c *core.Ctx, p *TopoPlan) {
	t := p.build()
	for i := range p.Ops {
		o := &p.Ops[i]
		if o.WaitN > 0 {
			time.Sleep(time.Duration(o.WaitN))
		}
		before := flat(t)
		switch o.Op {
		case "seq", "rnd":
			v := w.view(t)
			if flat(t) != before {
				c.Fail("C14", "look-up", "a look-up changed the topology")
				return
			}
			n := len(t.TypeIndex)
			k := 0
			hook := func(max uint64) (uint64, bool) {
				if k >= len(o.Draws) {
					return 0, false
				}
				d := uint64(o.Draws[k]) % max
				k++
				c.Fault("chosen-random-number")
				return d, true
			}
			if o.Op == "rnd" && len(o.Draws) > 0 {
				rand.SimRand, randv2.SimRand = hook, hook
			}
			t.RandomizeTypes(o.Op == "seq")
			rand.SimRand, randv2.SimRand = nil, nil
			a := w.view(t)
			var ids []int
			for id := range t.TypeIndex {
				ids = append(ids, int(id))
			}
			sort.Ints(ids)
			c.Logf("%s: %d types, %d components, ids %v", o.Op, n, len(t.HWc), cut(fmt.Sprint(ids), 200))
			if len(t.TypeIndex) != n {
				c.Fail("C14", "type-count", "renumbering (%s) made %d types out of %d", o.Op, len(t.TypeIndex), n)
			}
			if !sameS(v.comps, a.comps) {
				c.Fail("C14", "components", "renumbering (%s) changed the component list: %s", o.Op, firstDiff(v.comps, a.comps))
			}
			if !sameS(v.defs, a.defs) {
				c.Fail("C14", "definition", "renumbering (%s) changed what a component's type resolves to: %s", o.Op, firstDiff(v.defs, a.defs))
			} else if v.gets != a.gets {
				c.Fail("C14", "definition", "renumbering (%s) changed what the look-ups return", o.Op)
			}
			if !sameS(v.types, a.types) {
				c.Fail("C14", "type-count", "renumbering (%s) changed the set of definitions: %s", o.Op, firstDiff(v.types, a.types))
			}
			for j := range v.off {
				if j < len(a.off) && v.off[j] != a.off[j] {
					c.Fail("C14", "disabled", "renumbering (%s) changes component %d (id %d) from type 0 (disabled) = %v to %v", o.Op, j, t.HWc[j].Id, v.off[j], a.off[j])
					break
				}
			}
			if o.Op == "seq" {
				for j, id := range ids {
					if id != j+1 {
						c.Fail("C14", "sequence", "sequential renumbering of %d types yields the ids %v", n, cut(fmt.Sprint(ids), 300))
						break
					}
				}
			}
			if n > 1 {
				c.NonTriv = true
			}
		case "clean":
			var want []string
			for k := range t.HWc {
				if t.HWc[k].Type != markerType {
					want = append(want, flat(&t.HWc[k]))
				}
			}
			nm := len(t.HWc) - len(want)
			types, title := flat(t.TypeIndex), t.Title
			t.CleanSections()
			var got []string
			for k := range t.HWc {
				got = append(got, flat(&t.HWc[k]))
			}
			c.Logf("clean: %d markers removed, %d components left", nm, len(got))
			if nm > 0 {
				c.NonTriv = true
				c.Probe("markers-removed")
			}
			if !sameS(want, got) {
				c.Fail("C14", "sections", "of %d components, %d of them markers, removing the markers leaves %d: %s", len(want)+nm, nm, len(got), firstDiff(want, got))
			}
			if flat(t.TypeIndex) != types || t.Title != title {
				c.Fail("C14", "sections", "removing the markers changed more than the components")
			}
		case "json":
			s1 := t.ToJSON()
			if flat(t) != before {
				c.Fail("C14", "json", "serialising changed the topology")
			}
			if sB := t.JSONstring(); !w.roundtrip(t, sB, "JSONstring") {
				return
			}
			if !w.roundtrip(t, s1, "ToJSON") {
				return
			}
			// go on with what was parsed
			t2 := &topology.Topology{}
			json.Unmarshal([]byte(s1), t2)
			t = t2
			c.Logf("json: %d bytes", len(s1))
		case "legacy":
			s := t.ToJSON()
			r1 := rawpanellib.ParseTopology(s)
			if d := common(reflect.ValueOf(&r1).Elem(), reflect.ValueOf(t).Elem(), "topology"); d != "" {
				c.Fail("C14", "json", "root package: what it parses is not what was serialised: %s", d)
			}
			b1, err := json.Marshal(r1)
			if err != nil {
				c.Fail("C14", "json", "the root package's topology does not serialise: %v", err)
				return
			}
			r2 := rawpanellib.ParseTopology(string(b1))
			b2, _ := json.Marshal(r2)
			if flat(&r1) != flat(&r2) {
				c.Fail("C14", "json", "root package: a topology, serialised and parsed, is a different one:\n%s\n%s", cut(flat(&r1), 500), cut(flat(&r2), 500))
			}
			r3 := rawpanellib.ParseTopology(string(b2))
			if b3, _ := json.Marshal(r3); string(b3) != string(b2) {
				c.Fail("C14", "json", "root package: serialisation is no fixpoint after one round")
			}
		}
		if len(c.Viol) > 0 {
			return
		}
	}
}

// common compares what two types of topologies have in common: fields of the
// same name.  It returns the first difference.
func common(a, b reflect.Value, at string) string {
	for a.Kind() == reflect.Ptr || a.Kind() == reflect.Interface {
		if a.IsNil() {
			return ""
		}
		a = a.Elem()
	}
	for b.Kind() == reflect.Ptr {
		if b.IsNil() { // absent: nothing but zeros on the other side
			b = reflect.Zero(b.Type().Elem())
			continue
		}
		b = b.Elem()
	}
	switch {
	case a.Kind() == reflect.Struct && b.Kind() == reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			o := b.FieldByName(f.Name)
			if !f.IsExported() || !o.IsValid() {
				continue
			}
			if d := common(a.Field(i), o, at+"."+f.Name); d != "" {
				return d
			}
		}
	case a.Kind() == reflect.Slice && b.Kind() == reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s has %d elements, not %d", at, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := common(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
	case a.Kind() == reflect.Map && b.Kind() == reflect.Map && a.Type().Key() == b.Type().Key():
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s has %d elements, not %d", at, a.Len(), b.Len())
		}
		for _, k := range b.MapKeys() {
			v := a.MapIndex(k)
			if !v.IsValid() {
				return fmt.Sprintf("%s[%v] is missing", at, k.Interface())
			}
			if d := common(v, b.MapIndex(k), fmt.Sprintf("%s[%v]", at, k.Interface())); d != "" {
				return d
			}
		}
	case a.Kind() == b.Kind() && a.CanInterface() && b.CanInterface() && a.Type().Comparable() && b.Type().Comparable() && a.Kind() != reflect.Struct:
		if x, y := fmt.Sprintf("%#v", a.Interface()), fmt.Sprintf("%#v", b.Interface()); x != y {
			return fmt.Sprintf("%s is %s, not %s", at, cut(x, 200), cut(y, 200))
		}
	}
	return ""
}

func (w *topoWorld) roundtrip(t *topology.Topology, s1 string, how string) bool {
	c := w.c
	t2 := &topology.Topology{}
	if err := json.Unmarshal([]byte(s1), t2); err != nil {
		c.Fail("C14", "json", "%s yields what does not parse: %v: %s", how, err, cut(s1, 300))
		return false
	}
	if a, b := flat(t), flat(t2); a != b {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		c.Fail("C14", "json", "%s: serialised and parsed, the topology is a different one: ...%s became ...%s", how, cut(a[max(0, i-60):], 200), cut(b[max(0, i-60):], 200))
		return false
	}
	s2 := t2.ToJSON()
	if how == "JSONstring" {
		s2 = t2.JSONstring()
	}
	t3 := &topology.Topology{}
	json.Unmarshal([]byte(s2), t3)
	s3 := t3.ToJSON()
	if how == "JSONstring" {
		s3 = t3.JSONstring()
	}
	if s2 != s3 {
		c.Fail("C14", "json", "%s is no fixpoint after one round: %s then %s", how, cut(s2, 300), cut(s3, 300))
		return false
	}
	return true
}

func (w *topoWorld) After(c *core.Ctx, plan any, res *runtime.SimResult) {
	if !res.MainDone {
		c.Fail("C14", "stuck", "a transformation or look-up blocks for ever")
	}
}
