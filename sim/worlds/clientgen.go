package worlds

import (
	"fmt"

	"vsim/core"
)

// Plan generation and normalisation for the client world.

func genCuts(r *core.Rng, n, maxTotalMs int) []Cut {
	var cs []Cut
	left := maxTotalMs
	for k := r.N(n + 1); k > 0; k-- {
		c := Cut{Off: r.N(1 << 20)}
		switch r.N(4) {
		case 0:
			c.Off = 1 + r.N(5)
		case 1:
			c.Off = 3 + r.N(3)
		}
		if r.P(40) && left > 0 {
			c.Ms = r.Pick(1, 10, 100, 500, r.N(left+1))
			if c.Ms > left {
				c.Ms = left
			}
			left -= c.Ms
		}
		cs = append(cs, c)
	}
	return cs
}

func genOut(r *core.Rng, uid int, bin bool) MsgSpec {
	m := MsgSpec{UID: uid, N: r.N(1 << 16), S: r.N(1 << 20)}
	if bin {
		m.K = r.PickS(outKindsBin...)
		if m.K == "sized" {
			switch r.N(12) {
			case 0:
				m.N = r.N(20)
			case 1, 2, 3:
				m.N = 980 + r.N(40)
			case 4:
				m.N = r.Pick(124, 125, 126, 127, 128, 129, 130, 255, 256, 257, 999, 1000, 1001, 4091, 4092, 4096)
			case 5:
				m.N = 60000 + r.N(10000)
			case 6:
				if r.P(25) {
					m.N = r.Pick(499999, 499998, 499990, 400000+r.N(99999))
				} else {
					m.N = r.N(5000)
				}
			default:
				m.N = r.N(3000)
			}
		}
	} else {
		m.K = r.PickS(outKindsASCII...)
	}
	if (m.K == "svg" || m.K == "json") && r.P(8) {
		m.N = bigText + r.Pick(4060, 4096, 8180, 65490, 65536, 66000, 131072, r.N(300000)) + r.N(40)
	}
	return m
}

func genIn(r *core.Rng, uid int) MsgSpec {
	m := MsgSpec{UID: uid, N: r.N(1 << 16), S: r.N(1 << 20)}
	m.K = r.PickS(inKinds...)
	if m.K == "gfxbig" && r.P(60) {
		m.K = "gfx"
	}
	return m
}

// genItems makes what a panel sends.  maxSpan bounds the time within a frame.
func genItems(r *core.Rng, uid *int, n int, bin bool, timing int) []Item {
	var items []Item
	for i := 0; i < n; i++ {
		*uid++
		it := Item{Kind: "msg", Msg: genOut(r, *uid, bin), CR: !bin && r.P(30)}
		switch {
		case r.P(35) && timing > 0:
			it.GapMs = r.Pick(0, 1, 5, 50, 300, 1000)
			if r.P(20) {
				it.GapMs = r.Pick(1990, 2000, 2001, 2100, 2500, 4000, 4100, 9000)
			}
			if r.P(2) {
				// a panel that has nothing to say for long
				it.GapMs = r.Pick(15000, 31000, 61000, 121000, 299000)
			}
		case r.P(50):
			it.Join = true
		}
		span := 1900
		if !bin {
			span = 6000
		} else if r.P(25) {
			span = 3800 // header and payload
		}
		if r.P(45) {
			it.Cuts = genCuts(r, 4, span)
		} else if r.P(8) {
			it.Drib = r.Pick(1, 1, 2, 3, 7, 170)
		}
		if bin && r.P(4) {
			it = Item{Kind: "emptyframe", Join: r.P(50), Msg: MsgSpec{N: r.N(4)}}
		}
		items = append(items, it)
	}
	return items
}

func genReply(r *core.Rng, bias string) Reply {
	rp := Reply{}
	k := bias
	if k == "" {
		k = r.PickS("ack", "ack", "ack", "ack", "rdy", "map", "silent", "text", "err")
	}
	rp.Kind = k
	rp.DelayMs = r.Pick(0, 0, 0, 1, 20, 300, 1000, 1500, 1900, 1950)
	switch k {
	case "ack":
		if r.P(35) {
			rp.Cuts = genCuts(r, 3, 1950-rp.DelayMs)
		}
		rp.JoinNext = r.P(40)
	case "rdy", "map":
		rp.Term = r.PickS("\n", "\n", "\r\n")
		rp.Extra = r.Pick(0, 0, 0, 1, 5)
		if r.P(25) {
			rp.Early, rp.JoinNext = 1+r.N(6), r.P(50)
		}
		if r.P(30) {
			rp.A, rp.B = r.Pick(1, 9, 10, 255, 65536, 4294967295), r.Pick(0, 1, 10, 12345, 4294967295)
		}
		if r.P(35) {
			rp.Cuts = genCuts(r, 3, 1950-rp.DelayMs)
		}
	case "text":
		rp.Text = r.PickS("Hello", "BSY", "nack", "_model=SK_X", "Welcome to panel", "list", "ActivePanel=1", "error", "RD", "HWC#3=Down", "ErrorMs=x", "Error")
		rp.Term = r.PickS("\n", "\n", "\r\n", "")
		if r.P(35) {
			rp.Cuts = genCuts(r, 3, 1950-rp.DelayMs)
		}
	case "err":
		rp.Text = r.PickS("Busy", "Too many connections", "x", "License=expired", "", "Panel in use by 10.0.0.9:"+fmt.Sprint(r.N(65536)), filler(r.N(1000), r.N(200)))
		rp.Term = r.PickS("\n", "\n", "\r\n", "")
		if r.P(35) {
			rp.Cuts = genCuts(r, 3, 1950-rp.DelayMs)
		}
		if r.P(50) {
			rp.Close = r.PickS("fin", "fin", "rst")
			rp.CloseMs = r.Pick(0, 0, 1, 100, 2500)
		}
	case "close":
		rp.Close = r.PickS("fin", "rst")
	}
	return rp
}

// genAckX varies the acknowledge: kinds 1 to 3 say nothing else.
func genAckX(r *core.Rng, rp *Reply, kinds int) {
	if rp.Kind == "ack" && r.P(5*kinds) {
		rp.AckX, rp.AckN = 1+r.N(kinds), r.Pick(0, 1, 100, 117, 250, 995, 1000, 1500, 5000, r.N(3000))
		if r.P(5) {
			rp.AckN = 60000 + r.N(400000)
		}
	}
}

func (w *clientWorld) Gen(r *core.Rng, prop string) any {
	uid := 0
	p := genClient(r, prop, &uid)
	if r.P(12) {
		for k := r.Pick(1, 1, 1, 2); k > 0; k-- {
			o := genClient(r, prop, &uid)
			o.StartMs = r.Pick(0, 0, 0, 1, 100, 1000, 3000)
			p.Others = append(p.Others, *o)
		}
	}
	return p
}

func genClient(r *core.Rng, prop string, uidp *int) *ClientPlan {
	p := &ClientPlan{}
	uid := *uidp
	brief := false
	defer func() { *uidp = uid }()
	p.NilConfig = r.P(20)
	if !p.NilConfig {
		p.NoConn = r.Pick(0, 1, 1, 2, 5)
		p.ReConn = r.Pick(0, 1, 1, 2, 5)
		if r.P(10) {
			p.NoConn = r.Pick(10, 30, 60)
		}
		if r.P(10) {
			p.ReConn = r.Pick(10, 30, 60)
		}
	}
	p.FromBuf = r.Pick(0, 0, 0, 1, 2, 10, 100)
	p.ToBuf = r.Pick(0, 0, 0, 1, 3, 10)
	p.TailMs = r.Pick(200, 500, 1000, 2500, 4000, 8000)
	acc := func(reply string) Dial {
		d := Dial{Out: "accept", LatMs: r.Pick(0, 0, 1, 30, 500)}
		d.Conn.Reply = genReply(r, reply)
		if prop != "C12" {
			genAckX(r, &d.Conn.Reply, 3)
		}
		d.Conn.SegReads = r.P(30)
		return d
	}
	isBin := func(d *Dial) bool { return d.Conn.Reply.Kind == "ack" }
	end := func(d *Dial) {
		switch r.N(5) {
		case 0, 1:
			d.Conn.Items = append(d.Conn.Items, Item{Kind: "fin", GapMs: r.Pick(0, 0, 1, 100, 2500)})
		case 2:
			d.Conn.Items = append(d.Conn.Items, Item{Kind: "rst", GapMs: r.Pick(0, 0, 1, 100)})
		case 3:
			uid++
			d.Conn.Items = append(d.Conn.Items, Item{Kind: "partial", Msg: genOut(r, uid, isBin(d)), Cut: r.N(1 << 16), Join: r.P(50)}, Item{Kind: r.PickS("fin", "rst"), GapMs: r.Pick(0, 0, 1, 100, 1900)})
		case 4:
			d.Conn.Items = append(d.Conn.Items, Item{Kind: "halfclose", GapMs: r.Pick(0, 1, 100)})
		}
	}
	stalls := func(pct int) {
		if r.P(pct) {
			for k := 1 + r.N(3); k > 0; k-- {
				p.Consumer = append(p.Consumer, Stall{After: r.N(12), Ms: r.Pick(1, 50, 500, 1500, 3000)})
			}
			if r.P(8) {
				// a caller that does not read for long
				p.Consumer[0].Ms = r.Pick(6000, 16000, 31000, 61000, 95000)
			}
		}
	}
	subs := func(n, lists int) {
		for i := 0; i < n; i++ {
			s := Submitter{Conn: r.Pick(0, 0, 0, 1, -1), DelayMs: r.Pick(0, 0, 1, 20, 300)}
			for k := 1 + r.N(lists); k > 0; k-- {
				l := SubList{GapMs: r.Pick(0, 0, 0, 0, 1, 10, 200)}
				nm := r.Pick(0, 1, 1, 1, 2, 3, 8)
				for ; nm > 0; nm-- {
					uid++
					l.Msgs = append(l.Msgs, genIn(r, uid))
				}
				s.Lists = append(s.Lists, l)
			}
			p.Subs = append(p.Subs, s)
		}
	}
	switch prop {
	case "C08":
		if r.P(15) {
			p.Dials = append(p.Dials, Dial{Out: "refuse"})
		}
		n := 1 + r.N(2)
		for i := 0; i < n; i++ {
			d := acc(r.PickS("ack", "ack", "ack", "rdy", "silent", "map"))
			d.Conn.Items = genItems(r, &uid, 1+r.N(24), isBin(&d), r.N(3))
			if i+1 < n || r.P(40) {
				end(&d)
			}
			p.Dials = append(p.Dials, d)
		}
		stalls(25)
		if r.P(25) {
			subs(1, 4)
		}
	case "C09":
		n := 1 + r.N(3)
		for i := 0; i < n; i++ {
			d := acc(r.PickS("ack", "ack", "rdy", "silent", "map"))
			d.Conn.Items = genItems(r, &uid, r.N(12), isBin(&d), 2)
			if r.P(30) {
				d.Conn.Window = r.Pick(1, 64, 1000, 4096, 65536)
			}
			if r.P(35) {
				for k := 1 + r.N(2); k > 0; k-- {
					d.Conn.Stalls = append(d.Conn.Stalls, Stall{After: r.Pick(6, 7, 20, 100, 1000, 5000), Ms: r.Pick(1, 100, 1000, 5000)})
				}
			} else if r.P(5) {
				d.Conn.NoRead = true
			}
			if i+1 < n {
				end(&d)
			} else if r.P(60) {
				// keep the connection for a while so that everything must arrive
				uid++
				d.Conn.Items = append(d.Conn.Items, Item{Kind: "msg", Msg: genOut(r, uid, isBin(&d)), GapMs: r.Pick(500, 2500, 7000)})
			}
			p.Dials = append(p.Dials, d)
		}
		subs(1+r.N(4), 8)
		stalls(15)
	case "C10":
		n := 1 + r.N(4)
		for i := 0; i < n; i++ {
			if r.P(4) {
				// text where a length is read: nothing may be reserved for it
				d := acc(r.PickS("text", "map", "rdy"))
				d.Conn.Items = genItems(r, &uid, r.N(4), false, r.N(3))
				end(&d)
				p.Dials = append(p.Dials, d)
				continue
			}
			d := acc("ack")
			d.Conn.Items = genItems(r, &uid, r.N(6), true, r.N(3))
			// garbage and empty frames anywhere
			for k := r.N(4); k > 0; k-- {
				uid++
				it := Item{Kind: r.PickS("garbage", "garbage", "emptyframe"), Msg: MsgSpec{UID: uid, N: r.Pick(0, 0, 1, 2, 30, 996, 1500, r.N(2000)), S: r.N(1 << 20)}, Join: r.P(60), GapMs: r.Pick(0, 0, 3)}
				if r.P(30) {
					it.Cuts = genCuts(r, 3, 1500)
				}
				at := r.N(len(d.Conn.Items) + 1)
				d.Conn.Items = append(d.Conn.Items[:at], append([]Item{it}, d.Conn.Items[at:]...)...)
			}
			uid++
			switch r.N(10) {
			case 0, 1, 2, 3:
				h := []uint32{500000, 500000, 500001, 1 << 19, 1 << 20, 1<<24 + 5, 1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30, 1<<32 - 1, 1<<32 - 4, 0x0a594452, uint32(r.U64())}
				it := Item{Kind: "over", Hdr: h[r.N(len(h))], Fill: r.Pick(0, 0, 1, 5, 40), Join: r.P(50), GapMs: r.Pick(0, 0, 10)}
				if r.P(30) {
					it.Cuts = []Cut{{Off: 1 + r.N(3), Ms: r.Pick(0, 10, 1000)}}
				}
				d.Conn.Items = append(d.Conn.Items, it)
			case 4, 5, 6, 7:
				it := Item{Kind: "stall", Msg: genOut(r, uid, true), Cut: r.Pick(0, 1, 2, 3, 4, 5, 6, 1<<16-1-r.N(50), r.N(1<<16), r.N(1<<16)), Join: r.P(50), GapMs: r.Pick(0, 0, 10, 2500)}
				if r.P(20) {
					it.Cuts = []Cut{{Off: 1 + r.N(8), Ms: r.Pick(0, 10, 1000, 1800)}}
				}
				d.Conn.Items = append(d.Conn.Items, it)
			case 8:
				end(&d)
			}
			p.Dials = append(p.Dials, d)
		}
		// a healthy connection at the end: recovery
		d := acc("ack")
		d.Conn.Items = genItems(r, &uid, 1+r.N(4), true, 1)
		p.Dials = append(p.Dials, d)
		stalls(10)
		if r.P(15) {
			subs(1, 4)
		}
		if r.P(10) {
			p.CancelOn, p.CancelN, p.CancelMs = r.PickS("item", "recv", "ondisconnect"), r.N(6), r.Pick(0, 0, 1, 500, 1500)
		}
	case "C11":
		n := 1 + r.N(4)
		if r.P(4) {
			// many attempts and brief connections
			n = 10 + r.N(26)
			brief = true
		}
		for i := 0; i < n; i++ {
			switch r.N(8) {
			case 0:
				p.Dials = append(p.Dials, Dial{Out: r.PickS("refuse", "unreach"), LatMs: r.Pick(0, 0, 10, 1000, 3000)})
				continue
			case 1:
				if r.P(40) {
					p.Dials = append(p.Dials, Dial{Out: "hang"})
					continue
				}
			}
			d := acc(r.PickS("ack", "ack", "ack", "rdy", "silent", "map", "err", "text", "close"))
			if d.Conn.Reply.Kind != "close" {
				k := r.N(8)
				if brief {
					k = r.N(3)
				}
				d.Conn.Items = genItems(r, &uid, k, isBin(&d), r.N(3))
				switch {
				case i+1 < n || r.P(50):
					end(&d)
				case isBin(&d) && r.P(20):
					uid++
					d.Conn.Items = append(d.Conn.Items, Item{Kind: r.PickS("over", "stall"), Hdr: 500000, Msg: genOut(r, uid, true), Cut: r.N(1 << 16)})
				}
			} else {
				d.Conn.Reply.DelayMs = r.Pick(0, 1, 500, 1500, 2500)
			}
			if r.P(12) {
				d.Conn.NoRead = true
				d.Conn.Window = r.Pick(1, 100, 4096)
			} else if r.P(10) {
				d.Conn.Stalls = []Stall{{After: 7, Ms: r.Pick(100, 3000)}}
				d.Conn.Window = r.Pick(1, 100, 4096)
			}
			p.Dials = append(p.Dials, d)
		}
		if r.P(35) {
			subs(1+r.N(2), 6)
		}
		stalls(15)
		if r.P(10) {
			p.OnConnMs = r.Pick(1, 100, 1000)
		}
		if r.P(10) {
			p.OnDiscMs = r.Pick(1, 100, 1000)
		}
		if r.P(75) {
			p.CancelOn = r.PickS("start", "dial", "dial", "refused", "accept", "probe", "onconnect", "onconnect", "ondisconnect", "ondisconnect", "recv", "item", "item", "sub", "subdone", "clientclose", "scriptdone")
			p.CancelN = r.Pick(0, 0, 0, 1, 1, 2, 3, 5)
			if brief {
				p.CancelN = r.N(n + 2)
			}
			p.CancelMs = r.Pick(0, 0, 0, 0, 1, 10, 100, 500, 999, 1000, 1001, 1500, 1999, 2000, 2001, 3000)
		}
		if r.P(4) {
			p.NilWG = true
		}
		if r.P(4) {
			p.NilConnCB = true
		}
		if r.P(4) {
			p.NilDiscCB = true
		}
	case "C12":
		n := 1 + r.N(2)
		for i := 0; i < n; i++ {
			d := acc(r.PickS("ack", "ack", "frame", "silent", "rdy", "map", "text", "err", "err"))
			genAckX(r, &d.Conn.Reply, 5)
			if d.Conn.Reply.Kind != "frame" {
				d.Conn.Items = genItems(r, &uid, r.N(4), isBin(&d), r.N(3))
				if d.Conn.Reply.Close == "" && (i+1 < n || r.P(20)) {
					end(&d)
				}
			}
			p.Dials = append(p.Dials, d)
			if d.Conn.Reply.Kind == "frame" {
				break
			}
		}
		if r.P(40) {
			subs(1, 4)
			if r.P(60) {
				p.Subs[0].Conn = -1
			}
		}
	}
	return p
}

func (w *clientWorld) Normalize(prop string, plan any) {
	p := plan.(*ClientPlan)
	normClient(p)
	if len(p.Others) > 3 {
		p.Others = p.Others[:3]
	}
	for i := range p.Others {
		p.Others[i].Others = nil
		normClient(&p.Others[i])
	}
}

func normClient(p *ClientPlan) {
	core.Clamp(&p.StartMs, 0, 60000)
	core.Clamp(&p.NoConn, 0, 120)
	core.Clamp(&p.ReConn, 0, 120)
	core.Clamp(&p.FromBuf, 0, 1000)
	core.Clamp(&p.ToBuf, 0, 1000)
	core.Clamp(&p.TailMs, 0, 20000)
	core.Clamp(&p.CancelMs, 0, 60000)
	core.Clamp(&p.CancelN, 0, 1000)
	core.Clamp(&p.OnConnMs, 0, 5000)
	core.Clamp(&p.OnDiscMs, 0, 5000)
	if len(p.Dials) > 60 {
		p.Dials = p.Dials[:60]
	}
	if len(p.Subs) > 6 {
		p.Subs = p.Subs[:6]
	}
	broken := false
	for i := range p.Dials {
		d := &p.Dials[i]
		core.Clamp(&d.LatMs, 0, 10000)
		c := &d.Conn
		normReply(&c.Reply)
		bin := c.Reply.Kind == "ack"
		if c.Window < 0 {
			c.Window = 0
		}
		// the probe and the line feed must fit before the panel can stop
		for j := range c.Stalls {
			core.Clamp(&c.Stalls[j].After, 6, 1<<20)
			core.Clamp(&c.Stalls[j].Ms, 0, 20000)
		}
		for j := range c.Items {
			it := &c.Items[j]
			core.Clamp(&it.GapMs, 0, 300000)
			span := 1900
			if !bin {
				span = 8000
			} else if it.Kind == "msg" || it.Kind == "garbage" || it.Kind == "emptyframe" {
				span = 3800
			}
			for k := range it.Cuts {
				if it.Cuts[k].Off < 0 {
					it.Cuts[k].Off = -it.Cuts[k].Off
				}
				core.Clamp(&it.Cuts[k].Ms, 0, span)
				span -= it.Cuts[k].Ms
			}
			if it.Drib > 0 && it.Msg.K == "sized" && abs(it.Msg.N) > 5000 {
				core.Clamp(&it.Msg.N, 0, 5000)
			}
			if it.Msg.K == "sized" {
				core.Clamp(&it.Msg.N, 0, 499999)
			}
			if it.Drib > 0 && abs(it.Msg.N) >= bigText {
				it.Msg.N = abs(it.Msg.N) % 3000
			}
			if it.Kind == "stall" {
				broken = true
				if it.Cut < 0 {
					it.Cut = -it.Cut
				}
			}
			if it.Kind == "over" || it.Kind == "stall" {
				if !bin {
					it.Kind = "msg"
				}
			}
			if it.Kind == "over" {
				core.Clamp(&it.Fill, 0, 100)
			}
		}
	}
	n, total := 0, 0
	for i := range p.Consumer {
		s := &p.Consumer[i]
		core.Clamp(&s.After, 0, 100000)
		core.Clamp(&s.Ms, 0, 100000)
		if broken {
			core.Clamp(&s.Ms, 0, 700-total)
		}
		total += s.Ms
		n++
	}
	if broken {
		core.Clamp(&p.OnConnMs, 0, 300)
		core.Clamp(&p.OnDiscMs, 0, 300)
	}
	for i := range p.Subs {
		for j := range p.Subs[i].Lists {
			core.Clamp(&p.Subs[i].Lists[j].GapMs, 0, 20000)
		}
		core.Clamp(&p.Subs[i].DelayMs, 0, 60000)
	}
}

func normReply(rp *Reply) {
	switch rp.Kind {
	case "ack", "frame", "silent", "rdy", "map", "err", "text", "close":
	default:
		rp.Kind = "ack"
	}
	max := 1950
	if rp.Kind == "close" {
		max = 5000
	}
	core.Clamp(&rp.DelayMs, 0, max)
	left := max - rp.DelayMs
	for i := range rp.Cuts {
		if rp.Cuts[i].Off < 0 {
			rp.Cuts[i].Off = -rp.Cuts[i].Off
		}
		core.Clamp(&rp.Cuts[i].Ms, 0, left)
		left -= rp.Cuts[i].Ms
	}
	core.Clamp(&rp.CloseMs, 0, 20000)
	core.Clamp(&rp.Extra, 0, 50)
	core.Clamp(&rp.Early, 0, 50)
	core.Clamp(&rp.AckX, 0, 5)
	core.Clamp(&rp.AckN, 0, 499000)
	if rp.Kind == "err" || rp.Kind == "text" {
		if rp.Term != "" && rp.Term != "\n" && rp.Term != "\r\n" {
			rp.Term = "\n"
		}
	} else if rp.Term != "\r\n" {
		rp.Term = "\n"
	}
	if rp.Kind == "text" && rp.Text == "" {
		rp.Text = "Hello"
	}
	if rp.Close != "" && rp.Close != "fin" && rp.Close != "rst" {
		rp.Close = "fin"
	}
}
