package worlds

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/SKAARHOJ/rawpanel-lib/topology"

	"vsim/core"
)

// The lookup world (C13): a topology is shared by several goroutines that look
// things up in it, keep what they are given and ask it for its predicates.  In
// some runs another goroutine puts new contents into the topology, under the
// topology's own lock, and the look-ups that take that lock must answer for
// the contents of one moment between their call and their return.

type LkCall struct {
	Op   int
	Id   int // index into the components; beyond: an unknown id
	Form int
	Ms   int
}
type LkVer struct {
	Comps []TComp
	Types []TType
	NilHW bool
}
type LookPlan struct {
	Title  string
	Vers   []LkVer // what the topology holds, one after another
	GapMs  []int   // before each later version
	HoldMs []int   // lock held while it is put in
	Tasks  [][]LkCall
	Others []*LookPlan `json:",omitempty"` // further topologies in the same process
}

const (
	lkHWCs = iota
	lkXY
	lkText
	lkType
	lkWithDisplay
	lkPredicates
	lkLocked // look-ups up to here take the topology's lock
	lkOverride
	lkDefKey
	lkDefId
	lkComp
	lkJSON
	lkVerify
	lkOps
)

var lkNames = []string{"GetHWCs", "GetHWCxy", "GetHWCtext", "GetHWCtype", "GetHWCsWithDisplay", "predicates", "predicates", "GetTypeDefWithOverride", "GetHWCTypeDefinition", "GetHWCTypeDefinitionFromHWCid", "GetHWCDefinitionFromHWCid", "serialise", "Verify"}

type lookWorld struct{ c *core.Ctx }

func init() { core.Worlds["lookup"] = &lookWorld{} }

func (w *lookWorld) NewPlan() any              { return &LookPlan{} }
func (w *lookWorld) Budget(prop string) uint64 { return 20_000_000 }

var lkIn = []string{"b", "b4", "b2h", "b2v", "pb", "gpi", "p", "av", "ah", "ar", "a", "iv", "ih", "ir", "i", "", "B", "bb", " b", "x"}

func lkDef(r *core.Rng) TDef {
	d := tDef(r)
	if r.P(70) {
		d.In = lkIn[r.N(len(lkIn))]
		for r.P(30) {
			d.In += "," + lkIn[r.N(len(lkIn))]
		}
	}
	if r.P(40) {
		d.Ext = r.PickS("steps", "pos", "", "steps,pos", "pos,x")
	}
	if r.P(30) {
		d.Out = r.PickS("rgb", "mono", "rg", "rb", "")
	}
	if r.P(50) {
		for i := range d.Sub {
			d.Sub[i].Idx = r.N(12) - 2
		}
	}
	return d
}

func lkVer(r *core.Rng, of *LkVer) LkVer {
	v := LkVer{NilHW: r.P(5)}
	nt := r.Pick(0, 1, 2, 3, 5, 8)
	for i := 0; i < nt; i++ {
		t := TType{Id: uint32(1 + r.N(12)), Def: lkDef(r)}
		switch r.N(15) {
		case 0:
			t.Id = uint32(r.U64())
		case 1:
			t.Id = 0
		case 2:
			t.Id = markerType
		}
		v.Types = append(v.Types, t)
	}
	nc := r.Pick(0, 1, 2, 3, 5, 8, 15)
	if r.P(2) {
		nc = r.Pick(100, 255, 256, 257, 300)
	}
	dup := r.Pick(0, 0, 0, 10, 40)
	for i := 0; i < nc; i++ {
		cm := TComp{Id: uint32(i + 1), X: tInt(r), Y: tInt(r), Txt: tStr(r)}
		if r.P(10) {
			cm.Id = uint32(r.U64() >> uint(32+r.N(32)))
		}
		if i > 0 && r.P(dup) {
			cm.Id = v.Comps[r.N(i)].Id
		}
		if of != nil && i < len(of.Comps) && r.P(80) {
			cm.Id = of.Comps[i].Id
		}
		if len(v.Types) > 0 && r.P(92) {
			cm.Type = v.Types[r.N(len(v.Types))].Id
		} else if r.P(50) {
			cm.Type = uint32(r.N(20))
		}
		if r.P(55) {
			d := lkDef(r)
			cm.Ov = &d
			if r.P(40) { // one attribute only
				one := TDef{}
				switch r.N(11) {
				case 0:
					one.W = 1 + r.N(9)
				case 1:
					one.H = 1 + r.N(9)
				case 2:
					one.Subidx = 1 + r.N(9)
				case 3:
					one.Out = "mono"
				case 4:
					one.In = lkIn[r.N(len(lkIn))]
				case 5:
					one.Desc = "other"
				case 6:
					one.Ext = "pos"
				case 7:
					one.Render = "hwcid"
				case 8:
					one.Rotate = 45
				case 9:
					one.Disp = &TDisp{W: 1 + r.N(200), H: r.N(3)}
				case 10:
					one.Sub = []TSub{{T: "c", R: r.N(5), Idx: r.N(4)}}
				}
				*cm.Ov = one
			}
		}
		if r.P(15) {
			cm.Par, cm.Yang = uint32(r.N(30)), uint32(r.N(30))
		}
		v.Comps = append(v.Comps, cm)
	}
	return v
}

func (w *lookWorld) Gen(r *core.Rng, prop string) any {
	p := w.gen(r)
	if r.P(12) {
		for n := 1 + r.N(2); n > 0; n-- {
			o := w.gen(r)
			if r.P(60) { // much the same topology, so that the ids and types of one exist in the other
				o.Vers = []LkVer{lkVer(r, &p.Vers[0])}
				o.Vers[0].Types = append(o.Vers[0].Types, p.Vers[0].Types...)
			}
			p.Others = append(p.Others, o)
		}
	}
	return p
}

func (w *lookWorld) gen(r *core.Rng) *LookPlan {
	p := &LookPlan{Title: tStr(r)}
	nv := r.Pick(1, 1, 1, 2, 3, 5)
	for i := 0; i < nv; i++ {
		var of *LkVer
		if i > 0 {
			of = &p.Vers[i-1]
			p.GapMs = append(p.GapMs, r.N(4))
			p.HoldMs = append(p.HoldMs, r.Pick(0, 0, 1, 2))
		}
		v := lkVer(r, of)
		p.Vers = append(p.Vers, v)
	}
	for k := 1 + r.N(5); k > 0; k-- {
		var t []LkCall
		for n := 1 + r.N(10); n > 0; n-- {
			t = append(t, LkCall{Op: r.N(lkOps), Id: r.N(len(p.Vers[0].Comps) + 2), Form: r.N(8), Ms: r.Pick(0, 0, 0, 1, 2)})
		}
		p.Tasks = append(p.Tasks, t)
	}
	return p
}

// The statement leaves open what an override that is negative, a negative
// zero, or a display of nothing is worth.
func lkNormOv(d *TDef) {
	for _, i := range []*int{&d.W, &d.H, &d.Subidx} {
		if *i < 0 {
			*i = 0
		}
	}
	if d.Rotate == 0 {
		d.Rotate = 0
	}
	if d.Disp != nil && *d.Disp == (TDisp{}) {
		d.Disp.W = 1
	}
}

func (w *lookWorld) Normalize(prop string, plan any) {
	p := plan.(*LookPlan)
	w.normalize(p)
	if len(p.Others) > 4 {
		p.Others = p.Others[:4]
	}
	for i := range p.Others {
		if p.Others[i] == nil {
			p.Others[i] = &LookPlan{}
		}
		p.Others[i].Others = nil
		w.normalize(p.Others[i])
	}
}

func (w *lookWorld) normalize(p *LookPlan) {
	validUTF8(&p.Title)
	if len(p.Vers) == 0 {
		p.Vers = make([]LkVer, 1)
	}
	for vi := range p.Vers {
		v := &p.Vers[vi]
		seen := map[uint32]bool{}
		var ts []TType
		for _, t := range v.Types {
			if !seen[t.Id] && len(ts) < 100 {
				seen[t.Id] = true
				normDef(&t.Def)
				ts = append(ts, t)
			}
		}
		v.Types = ts
		ids := map[uint32]bool{}
		var cs []TComp
		for _, cm := range v.Comps {
			if ids[cm.Id] && len(p.Vers) > 1 || len(cs) >= 500 {
				continue
			}
			ids[cm.Id] = true
			validUTF8(&cm.Txt)
			if cm.Ov != nil {
				normDef(cm.Ov)
				lkNormOv(cm.Ov)
			}
			cs = append(cs, cm)
		}
		v.Comps = cs
	}
	for len(p.GapMs) < len(p.Vers) {
		p.GapMs = append(p.GapMs, 0)
	}
	for len(p.HoldMs) < len(p.Vers) {
		p.HoldMs = append(p.HoldMs, 0)
	}
	for i := range p.GapMs {
		core.Clamp(&p.GapMs[i], 0, 1000)
	}
	for i := range p.HoldMs {
		core.Clamp(&p.HoldMs[i], 0, 1000)
	}
	if len(p.Tasks) > 10 {
		p.Tasks = p.Tasks[:10]
	}
	for i := range p.Tasks {
		for j := range p.Tasks[i] {
			cl := &p.Tasks[i][j]
			core.Clamp(&cl.Op, 0, lkOps-1)
			core.Clamp(&cl.Id, 0, 1000)
			core.Clamp(&cl.Form, 0, 1000)
			core.Clamp(&cl.Ms, 0, 1000)
			if len(p.Vers) > 1 && cl.Op > lkLocked {
				cl.Op %= lkLocked
			}
		}
	}
}

// resolve is the reference: the base type and whatever the override gives.
// known is false when the type is not indexed: nothing is said about those.
func (v *LkVer) resolve(cm *TComp) (d TDef, known bool) {
	for i := range v.Types {
		if v.Types[i].Id == cm.Type {
			d, known = v.Types[i].Def, true
		}
	}
	o := cm.Ov
	if o == nil {
		return
	}
	if o.W != 0 {
		d.W = o.W
	}
	if o.H != 0 {
		d.H = o.H
	}
	if o.Subidx != 0 {
		d.Subidx = o.Subidx
	}
	for _, s := range [][2]*string{{&d.Out, &o.Out}, {&d.In, &o.In}, {&d.Desc, &o.Desc}, {&d.Ext, &o.Ext}, {&d.Render, &o.Render}} {
		if *s[1] != "" {
			*s[0] = *s[1]
		}
	}
	if o.Rotate != 0 {
		d.Rotate = o.Rotate
	}
	if o.Disp != nil {
		d.Disp = o.Disp
	}
	if len(o.Sub) > 0 {
		d.Sub, d.EmptySub = o.Sub, false
	}
	return
}

func (v *LkVer) find(id uint32) *TComp {
	for i := range v.Comps {
		if v.Comps[i].Id == id {
			return &v.Comps[i]
		}
	}
	return nil
}

func flatDef(d *TDef) string { t := d.build(); return flat(&t) }

// lkAny: nothing is said about it.
const lkAny = "*"

// wants is what a look-up that takes the topology's lock says about a version
// (several, if there are several components of that id).
func (v *LkVer) wants(op int, id uint32) (ws []string) {
	n := 0
	if op != lkHWCs {
		for i := range v.Comps {
			if v.Comps[i].Id == id {
				n++
				ws = append(ws, v.want(op, &v.Comps[i]))
			}
		}
	}
	if n == 0 {
		ws = append(ws, v.want(op, nil))
	}
	return
}

func (v *LkVer) says(op int, id uint32, got string) bool {
	for _, s := range v.wants(op, id) {
		if s == got || s == lkAny {
			return true
		}
	}
	return false
}

func (v *LkVer) want(op int, cm *TComp) string {
	switch op {
	case lkHWCs:
		ids := []uint32{}
		for i := range v.Comps {
			ids = append(ids, v.Comps[i].Id)
		}
		return fmt.Sprint(ids)
	case lkXY:
		if cm == nil {
			return "-1 -1"
		}
		return fmt.Sprint(cm.X, cm.Y)
	case lkText:
		if cm == nil {
			return `""`
		}
		return fmt.Sprintf("%q", cm.Txt)
	case lkType:
		if cm == nil {
			return "nil and an error"
		}
		d, known := v.resolve(cm)
		if !known {
			return lkAny
		}
		return flatDef(&d)
	}
	return lkAny
}

// displays: do these components, in this order, have one?  Those without a
// type in the index may be listed or not.
func (v *LkVer) displays(all []uint32) bool {
	at := map[int]bool{0: true}
	for i := range v.Comps {
		d, known := v.resolve(&v.Comps[i])
		if known && d.Disp == nil {
			continue
		}
		next := map[int]bool{}
		for k := range at {
			if k < len(all) && all[k] == v.Comps[i].Id {
				next[k+1] = true
			}
			if !known {
				next[k] = true
			}
		}
		at = next
	}
	return at[len(all)]
}

// lkKept is a definition that a look-up returned.
type lkKept struct {
	def  *topology.TopologyHWcTypeDef
	flat string
	how  string
	pub  chan struct{} // closed: hands the definition over to whoever asks it
}

type lkRun struct {
	w               *lookWorld
	p               *LookPlan
	t               *topology.Topology
	kept            []*lkKept
	json            string
	flat            string
	begun, finished int
	answers         map[string]string // definition + predicate -> answer
	cand            map[uint32][]int  // id -> components that the resolvers may have meant so far
}

// resolved: a resolver answered with d for an id.  If there are several
// components with that id, the resolvers must mean the same one.
func (x *lkRun) resolved(id uint32, d *topology.TopologyHWcTypeDef, how string, second bool) {
	v := &x.p.Vers[0]
	if len(x.p.Vers) > 1 {
		return
	}
	cand, ok := x.cand[id]
	if !ok {
		for i := range v.Comps {
			if v.Comps[i].Id == id {
				cand = append(cand, i)
			}
		}
	}
	if len(cand) == 0 {
		return
	}
	if len(cand) > 1 {
		x.w.c.Probe("id-of-several-components")
	}
	var left []int
	got := flat(d)
	for _, i := range cand {
		if x.agrees(&v.Comps[i], d, got, second) {
			left = append(left, i)
		}
	}
	x.cand[id] = left
	if len(left) == 0 {
		x.w.c.Fail("C13", "disagree", "%s(%d) yields %s, which is not what the resolvers have answered so far for any of the components with this id", how, id, cut(got, 500))
	}
}

// agrees: may d be what cm resolves to?  Description and render hints of an
// override are no attributes of the second entry point.
func (x *lkRun) agrees(cm *TComp, d *topology.TopologyHWcTypeDef, got string, second bool) bool {
	ref, known := x.p.Vers[0].resolve(cm)
	if !known {
		return true
	}
	if second && cm.Ov != nil {
		if cm.Ov.Desc != "" {
			ref.Desc = d.Desc
		}
		if cm.Ov.Render != "" {
			ref.Render = d.Render
		}
	}
	return flatDef(&ref) == got
}

func (v *LkVer) build(title string) *topology.Topology {
	tp := TopoPlan{Title: title, Comps: v.Comps, Types: v.Types, NilHW: v.NilHW}
	return tp.build()
}

func (w *lookWorld) Run(c *core.Ctx, plan any) {
	p := plan.(*LookPlan)
	w.c = c
	left := len(p.Others)
	for i := range p.Others {
		i := i
		c.Go("other-topology", func() {
			w.run(c, p.Others[i])
			left--
		})
	}
	w.run(c, p)
	for left > 0 && len(c.Viol) == 0 { // each of them ends by itself
		time.Sleep(10 * time.Millisecond)
	}
	if len(p.Others) > 0 {
		c.Probe("several-topologies")
	}
}

func (w *lookWorld) run(c *core.Ctx, p *LookPlan) {
	x := &lkRun{w: w, p: p, t: p.Vers[0].build(p.Title), answers: map[string]string{}, cand: map[uint32][]int{}}
	x.json, x.flat = x.t.ToJSON(), flat(x.t)
	left := len(p.Tasks)
	for i := range p.Tasks {
		i := i
		c.Go("task", func() {
			defer func() { left-- }()
			for j := range p.Tasks[i] {
				cl := &p.Tasks[i][j]
				if cl.Ms > 0 {
					time.Sleep(ms(cl.Ms))
				} else {
					runtime.Gosched()
				}
				got := x.try(i, cl)
				c.Probe(lkNames[cl.Op])
				c.Logf("task %d %s #%d: %s", i, lkNames[cl.Op], cl.Id, cut(got, 60))
				if len(c.Viol) > 0 {
					return
				}
			}
		})
	}
	if lock, ok := any(x.t).(sync.Locker); ok && len(p.Vers) > 1 {
		left++
		c.Go("writer", func() {
			defer func() { left-- }()
			x.write(lock)
		})
	}
	for k := 0; k < 2000 && left > 0; k++ {
		time.Sleep(10 * time.Millisecond)
	}
	if left > 0 {
		c.Fail("C13", "stuck", "%d goroutines do not come back from their look-ups", left)
		return
	}
	// what holds the lock now?
	if lockHeld(x.t) {
		c.Fail("C13", "lock", "all look-ups have returned, and the topology's lock is still held")
		return
	}
	for _, k := range x.kept {
		if lockHeld(k.def) {
			c.Fail("C13", "lock", "all look-ups have returned, and the lock of the definition returned by %s is still held", k.how)
			return
		}
		if f := flat(k.def); f != k.flat {
			c.Fail("C13", "altered", "the definition that %s returned was altered later: it was %s, it is %s", k.how, cut(k.flat, 300), cut(f, 300))
			return
		}
	}
	if len(p.Vers) == 1 {
		x.unchanged("the look-ups")
	}
}

func lockHeld(v any) bool {
	l, ok := v.(interface {
		TryLock() bool
		Unlock()
	})
	if ok && l.TryLock() {
		l.Unlock()
		return false
	}
	return ok
}

func (x *lkRun) unchanged(who string) {
	if s := x.t.ToJSON(); s != x.json {
		x.w.c.Fail("C13", "mutated", "%s changed the serialised form of the topology: %s became %s", who, cut(x.json, 300), cut(s, 300))
	} else if f := flat(x.t); f != x.flat {
		x.w.c.Fail("C13", "mutated", "%s changed the topology", who)
	}
}

// write puts the later versions in, bit by bit, under the topology's lock.
func (x *lkRun) write(lock sync.Locker) {
	for k := 1; k < len(x.p.Vers); k++ {
		time.Sleep(ms(x.p.GapMs[k-1]))
		n := x.p.Vers[k].build(x.p.Title)
		lock.Lock()
		x.begun = k
		hold := func() {
			if h := x.p.HoldMs[k-1]; h > 0 {
				time.Sleep(ms(h))
			} else {
				runtime.Gosched()
			}
		}
		for i := range x.t.HWc {
			x.t.HWc[i].X = 987654
			x.t.HWc[i].Txt = "in between"
		}
		hold()
		x.t.HWc = n.HWc
		for id, d := range x.t.TypeIndex {
			d.Desc, d.Disp, d.W = "in between", nil, 987654
			x.t.TypeIndex[id] = d
		}
		hold()
		x.t.TypeIndex = n.TypeIndex
		x.finished = k
		x.w.c.Logf("version %d", k)
		x.w.c.Probe("contents-replaced")
		lock.Unlock()
	}
}

func (x *lkRun) keep(d *topology.TopologyHWcTypeDef, f, how string) {
	k := &lkKept{d, f, how, make(chan struct{})}
	close(k.pub)
	x.kept = append(x.kept, k)
}

func (x *lkRun) id(cl *LkCall) uint32 {
	cs := x.p.Vers[0].Comps
	if cl.Id < len(cs) {
		return cs[cl.Id].Id
	}
	return []uint32{0, uint32(len(cs) + 1), 4294967295, 250, 1000000}[(cl.Id-len(cs)+cl.Form)%5]
}

func (x *lkRun) try(task int, cl *LkCall) (got string) {
	c := x.w.c
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 3000)
			n := runtime.Stack(buf, false)
			got = "panic"
			c.Fail("C13", "panic", "%s panics: %v\n%s", lkNames[cl.Op], e, libFrames(string(buf[:n])))
		}
	}()
	t, id := x.t, x.id(cl)
	from := x.finished
	switch cl.Op {
	case lkHWCs:
		got = fmt.Sprint(t.GetHWCs())
	case lkXY:
		got = fmt.Sprint(t.GetHWCxy(id))
	case lkText:
		got = fmt.Sprintf("%q", t.GetHWCtext(id))
	case lkType:
		d, err := t.GetHWCtype(id)
		switch {
		case d == nil && err != nil:
			got = "nil and an error"
		case d == nil:
			got = "nil and no error"
		default:
			got = flat(d)
			x.keep(d, got, "GetHWCtype")
			x.resolved(id, d, "GetHWCtype", false)
			if err != nil {
				got += " and the error " + err.Error()
			}
		}
	case lkWithDisplay:
		all := t.GetHWCsWithDisplay()
		got = fmt.Sprint(all)
		to := x.begun
		for k := from; k <= to; k++ {
			if x.p.Vers[k].displays(all) {
				return
			}
		}
		c.Fail("C13", "wrong", "GetHWCsWithDisplay yields %s for versions %d to %d", cut(got, 500), from, to)
		return
	case lkPredicates, lkLocked:
		return x.predicates(cl)
	default:
		return x.unlocked(cl, id)
	}
	to := x.begun
	if to > from {
		c.Fault("contents-replaced-during-look-up")
	}
	var wants []string
	for k := from; k <= to; k++ {
		if x.p.Vers[k].says(cl.Op, id, got) {
			if got != "nil and an error" && got != `""` && got != "-1 -1" {
				c.NonTriv = true
			}
			return
		}
		wants = append(wants, x.p.Vers[k].wants(cl.Op, id)...)
	}
	how := "wrong"
	if len(x.p.Vers) > 1 {
		how = "torn"
		for k := 0; k < len(x.p.Vers); k++ {
			if x.p.Vers[k].says(cl.Op, id, got) {
				how = "stale"
			}
		}
	}
	c.Fail("C13", how, "%s(%d) yields %s, it is %s", lkNames[cl.Op], id, cut(got, 500), cut(strings.Join(wants, " or "), 900))
	return
}

// unlocked are the look-ups that leave locking to the caller.
func (x *lkRun) unlocked(cl *LkCall, id uint32) (got string) {
	c, t, v := x.w.c, x.t, &x.p.Vers[0]
	cm := v.find(id)
	check := func(d *topology.TopologyHWcTypeDef, cm *TComp) {
		got = flat(d)
		x.keep(d, got, lkNames[cl.Op])
		if cm == nil {
			if want := flatDef(&TDef{}); got != want {
				c.Fail("C13", "wrong", "%s yields %s for what is not there", lkNames[cl.Op], cut(got, 500))
			}
			return
		}
		if !x.agrees(cm, d, got, cl.Op != lkOverride) {
			ref, _ := v.resolve(cm)
			c.Fail("C13", "wrong", "%s: component %d resolves to %s, it is %s", lkNames[cl.Op], cm.Id, cut(got, 600), cut(flatDef(&ref), 600))
		}
		c.NonTriv = true
	}
	switch cl.Op {
	case lkOverride:
		if cl.Id >= len(t.HWc) {
			return
		}
		h := t.HWc[cl.Id]
		d := t.GetTypeDefWithOverride(&h)
		check(&d, &v.Comps[cl.Id])
	case lkDefKey:
		var of *TComp
		if cl.Id < len(v.Comps) {
			of = &v.Comps[cl.Id]
		}
		check(t.GetHWCTypeDefinition(cl.Id), of)
	case lkDefId:
		d := t.GetHWCTypeDefinitionFromHWCid(int(id))
		if cm == nil {
			check(d, nil)
			return
		}
		got = flat(d)
		x.keep(d, got, lkNames[cl.Op])
		x.resolved(id, d, lkNames[cl.Op], true)
		c.NonTriv = true
	case lkComp:
		h := t.GetHWCDefinitionFromHWCid(int(id))
		if h == nil {
			c.Fail("C13", "wrong", "%s(%d) yields nil", lkNames[cl.Op], id)
			return
		}
		got = flat(h)
		want := flat(&topology.TopologyHWcomponent{})
		ok := cm == nil && got == want
		for i := range v.Comps {
			if v.Comps[i].Id == id && !ok {
				one := LkVer{Comps: v.Comps[i : i+1]}
				want = flat(&one.build("").HWc[0])
				ok = got == want
			}
		}
		if !ok {
			c.Fail("C13", "wrong", "%s(%d) yields %s, it is %s", lkNames[cl.Op], id, cut(got, 500), cut(want, 500))
		}
	case lkJSON:
		if cl.Form%2 == 0 {
			got = t.ToJSON()
		} else {
			got = t.JSONstring()
		}
		if got != x.json {
			c.Fail("C13", "mutated", "look-ups changed the serialised form of the topology: %s became %s", cut(x.json, 400), cut(got, 400))
		}
	case lkVerify:
		t.Verify()
	}
	return
}

// predicates asks a definition somebody was given.
func (x *lkRun) predicates(cl *LkCall) string {
	c := x.w.c
	var d *topology.TopologyHWcTypeDef
	if n := len(x.kept); n > 0 && cl.Form%4 != 0 {
		k := x.kept[(cl.Id*8+cl.Form)%n]
		<-k.pub
		d = k.def
		c.Probe("predicates-of-a-shared-definition")
	} else {
		v := &x.p.Vers[0]
		if cl.Id >= len(v.Comps) {
			return ""
		}
		ref, _ := v.resolve(&v.Comps[cl.Id])
		b := ref.build()
		d = &b
	}
	f := flat(d)
	in, _, _ := strings.Cut(d.In, ",")
	is := func(xs string) bool {
		for _, s := range strings.Fields(xs) {
			if s == in {
				return true
			}
		}
		return false
	}
	type ans struct{ name, got, want string }
	var as []ans
	b := func(name string, got bool, want string) {
		if want == "" {
			want = lkAny
		}
		as = append(as, ans{name, fmt.Sprint(got), want})
	}
	bs := func(v bool) string { return fmt.Sprint(v) }
	as = append(as, ans{"GetInputType", d.GetInputType(), in})
	b("IsButton", d.IsButton(), bs(is("b b4 b2h b2v pb")))
	b("IsBinary", d.IsBinary(), bs(is("b b4 b2h b2v pb gpi")))
	b("IsPulsed", d.IsPulsed(), bs(is("pb p")))
	b("IsAbsolute", d.IsAbsolute(), bs(is("av ah ar a")))
	b("IsIntensity", d.IsIntensity(), bs(is("iv ih ir i")))
	b("HasDisplay", d.HasDisplay(), bs(d.Disp != nil))
	as = append(as, ans{"DisplayInfo", flat(d.DisplayInfo()), flat(d.Disp)})
	led := lkAny
	if d.Out == "rgb" {
		led = "true"
	} else if d.Out == "" && is("b b4 gpi p av") && d.In == in {
		led = "false"
	}
	b("HasLED", d.HasLED(), led)
	b("IsMotorized", d.IsMotorized(), map[bool]string{true: bs(d.Ext == "pos"), false: lkAny}[d.Ext == "pos" || !strings.Contains(d.Ext, "pos")])
	steps, bar := lkAny, lkAny
	if !strings.Contains(d.Ext, "steps") {
		steps, bar = "0", "0"
	} else if d.Ext == "steps" && len(d.Sub) > 0 {
		var idx []int
		for _, s := range d.Sub {
			idx = append(idx, s.Idx)
		}
		sort.Ints(idx)
		if idx[0] > -1000 && idx[len(idx)-1] < 1000 {
			steps = fmt.Sprint(idx[len(idx)-1] - idx[0] + 1)
		}
		bar = fmt.Sprint(len(d.Sub))
	}
	as = append(as, ans{"HasSteps", fmt.Sprint(d.HasSteps()), steps}, ans{"LedBarSteps", fmt.Sprint(d.LedBarSteps()), bar})
	for _, a := range as {
		if a.want != lkAny && a.got != a.want {
			c.Fail("C13", "predicate", "%s of %s yields %s, not %s", a.name, cut(f, 400), a.got, a.want)
			return a.name
		}
		if before, ok := x.answers[a.name+f]; ok && before != a.got {
			c.Fail("C13", "predicate", "%s of %s yields %s now and %s before", a.name, cut(f, 400), a.got, before)
			return a.name
		}
		x.answers[a.name+f] = a.got
	}
	if g := flat(d); g != f {
		c.Fail("C13", "mutated", "the predicates changed the definition they were asked of: %s became %s", cut(f, 400), cut(g, 400))
	}
	return fmt.Sprint(len(as))
}

func (w *lookWorld) After(c *core.Ctx, plan any, res *runtime.SimResult) {
	if !res.MainDone {
		c.Fail("C13", "stuck", "a look-up blocks for ever")
	}
}
