package worlds

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	rawpanellib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"

	"vsim/core"
)

// The byte stream a panel received must be the concatenation of the encodings
// of submitted lists: every list at most once, whole, in submission order.

type wlist struct {
	s     *submission
	msgs  []*rwp.InboundMessage
	ascii []byte
	empty [2]bool // nothing to write in ASCII / binary mode
}

func (r *clientRun) checkWrites() {
	if len(r.p.Subs) == 0 {
		return
	}
	bySub := make([][]*wlist, len(r.p.Subs))
	for _, s := range r.subs {
		l := &wlist{s: s}
		for _, m := range s.msgs {
			l.msgs = append(l.msgs, m.In(true))
		}
		for _, line := range rawpanellib.InboundMessagesToRawPanelASCIIstrings(l.msgs) {
			l.ascii = append(l.ascii, line...)
			l.ascii = append(l.ascii, '\n')
		}
		l.empty[0] = len(l.ascii) == 0
		l.empty[1] = len(l.msgs) == 0
		bySub[s.sub] = append(bySub[s.sub], l)
	}
	var cs []wconn
	for _, q := range r.recs {
		if q.pn == nil || q.probeAt < 0 {
			continue
		}
		b := q.sent()
		if !isPingProbe(b) {
			continue
		}
		rest := b[q.probeLen:]
		base := q.probeLen
		bin := q.mode == "bin"
		if q.mode == "any" || q.mode == "" {
			if q.onConnAt < 0 {
				continue
			}
			bin = q.binary
		}
		if q.onConnAt >= 0 && q.binary != bin {
			continue // reported as a classification failure
		}
		if !bin {
			if len(rest) == 0 {
				continue
			}
			if rest[0] != '\n' {
				r.c.Fail("C12", "line-feed", "conn %s: ASCII panel received %s first after the probe, want a line feed", q.name, hexcut(rest))
				return
			}
			rest = rest[1:]
			base++
			if len(rest) > 0 && rest[0] == '\n' {
				r.c.Fail("C12", "line-feed", "conn %s: ASCII panel received more than one line feed after the probe", q.name)
				return
			}
		} else if len(rest) > 0 && rest[0] == '\n' {
			// a line feed that no binary panel should get, or a 10-byte frame
			m := &matcher{r: r, cs: []wconn{{q, bin, rest, base}}, bySub: bySub, seen: map[string]bool{}}
			if !m.match(0, 0, make([]int, len(bySub))) {
				m.cs[0].b, m.cs[0].base, m.seen = rest[1:], base+1, map[string]bool{}
				if m.match(0, 0, make([]int, len(bySub))) {
					r.c.Fail("C12", "extra-bytes", "conn %s: binary panel received a line feed after the probe", q.name)
					return
				}
			}
		}
		cs = append(cs, wconn{q, bin, rest, base})
	}
	m := &matcher{r: r, cs: cs, bySub: bySub, must: true, seen: map[string]bool{}}
	if m.match(0, 0, make([]int, len(bySub))) {
		return
	}
	m2 := &matcher{r: r, cs: cs, bySub: bySub, seen: map[string]bool{}}
	if m2.match(0, 0, make([]int, len(bySub))) {
		r.c.Fail("C09", "lost", "a list handed over while connected is missing from what the panel received: %s", m.why)
		return
	}
	c := cs[m2.bestK]
	o := m2.best
	tail := c.b[min(o, len(c.b)):]
	r.c.Fail("C09", "stream", "conn %s: what the panel received is not a sequence of whole submitted lists in submission order: mismatch at offset %d of %d: %s", c.q.name, o, len(c.b), hexcut(tail))
}

// wconn is what one connection's panel received after probe and line feed.
type wconn struct {
	q    *rec
	bin  bool
	b    []byte
	base int // offset of b in everything received
}

// rxTime is when byte i arrived (a very late time if the panel has not read it).
func (c *wconn) rxTime(i int) time.Duration {
	for _, m := range c.q.marks {
		if m.n > c.base+i {
			return m.at
		}
	}
	return 1 << 62
}

type matcher struct {
	r     *clientRun
	cs    []wconn
	bySub [][]*wlist
	must  bool
	seen  map[string]bool
	best  int
	bestK int
	why   string
}

// lossAt is when connection q stopped being usable (for the writer).
func (r *clientRun) lossAt(q *rec) time.Duration {
	t := time.Duration(1 << 62)
	for _, x := range []time.Duration{q.panelEnd, q.brokenAt, r.cancelAt, q.closedAt()} {
		if x >= 0 && x < t {
			t = x
		}
	}
	return t
}

// mustArrive: the list was handed over while q was connected, q stayed usable
// and its panel was reading.
func (m *matcher) mustArrive(k int, l *wlist) bool {
	q := m.cs[k].q
	if l.s.done < 0 || q.onConnAt < 0 || l.s.doneSeq < q.connSeq || q.plan.NoRead {
		return false
	}
	if l.s.seq < q.connSeq && l.s.done <= q.dialAt {
		// The hand-over began before the connection existed and ended in the
		// same instant: the wait between two connection attempts may have taken
		// the list, the submitter was only scheduled later.
		return false
	}
	at := l.s.done
	if q.stalling {
		return false
	}
	if len(q.plan.Stalls) > 0 && q.stallEnd > at {
		at = q.stallEnd
	}
	if len(q.plan.Stalls) > 0 {
		// the panel has come back after every stall it went into
		at += 200 * time.Millisecond
	}
	return m.r.lossAt(q) > at+100*time.Millisecond
}

func (m *matcher) match(k, o int, idx []int) bool {
	if k == len(m.cs) {
		return true
	}
	key := fmt.Sprint(k, o, idx)
	if m.seen[key] {
		return false
	}
	m.seen[key] = true
	c := &m.cs[k]
	if k > m.bestK || k == m.bestK && o > m.best {
		m.bestK, m.best = k, o
	}
	if o == len(c.b) {
		// nothing more: no list that must arrive may be left over
		if m.must {
			for s, ls := range m.bySub {
				for _, l := range ls[idx[s]:] {
					if !l.empty[b2i(c.bin)] && m.mustArrive(k, l) {
						m.why = m.lost(k, l)
						return false
					}
				}
			}
		}
		return m.match(k+1, 0, idx)
	}
	rx := c.rxTime(o)
	for s, ls := range m.bySub {
		for j := idx[s]; j < len(ls); j++ {
			l := ls[j]
			if l.empty[b2i(c.bin)] {
				continue
			}
			if l.s.start > rx {
				break
			}
			n, full := m.take(c, o, l)
			if n > 0 {
				if next, ok := m.advance(k, idx, s, j); ok {
					if full {
						if m.match(k, o+n, next) {
							return true
						}
					} else if !(m.must && m.mustArrive(k, l)) {
						// cut short by the end of the connection
						if m.match(k, len(c.b), next) {
							return true
						}
					} else {
						m.why = m.lost(k, l)
					}
				}
			}
			// skipping l
			if m.must && m.mustArrive(k, l) {
				m.why = m.lost(k, l)
				break
			}
		}
	}
	return false
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (m *matcher) lost(k int, l *wlist) string {
	return fmt.Sprintf("list %d of submitter %d, handed over at %v on conn %d", l.s.idx, l.s.sub, l.s.done, m.cs[k].q.attempt)
}

// advance: list j of submitter s was written now; everything whose hand-over
// was complete before its own began must have been written before or never.
func (m *matcher) advance(k int, idx []int, s, j int) ([]int, bool) {
	l := m.bySub[s][j]
	next := append([]int(nil), idx...)
	next[s] = j + 1
	for t, ls := range m.bySub {
		if t == s {
			continue
		}
		for next[t] < len(ls) {
			x := ls[next[t]]
			if x.s.done < 0 || x.s.doneSeq > l.s.seq {
				break
			}
			if m.must && !x.empty[b2i(m.cs[k].bin)] && m.mustArrive(k, x) {
				m.why = m.lost(k, x)
				return nil, false
			}
			next[t]++
		}
	}
	return next, true
}

// take matches list l at offset o: bytes consumed (0: no match), whole list?
func (m *matcher) take(c *wconn, o int, l *wlist) (int, bool) {
	b := c.b[o:]
	if !c.bin {
		if len(b) >= len(l.ascii) {
			if string(b[:len(l.ascii)]) == string(l.ascii) {
				return len(l.ascii), true
			}
			return 0, false
		}
		if strings.HasPrefix(string(l.ascii), string(b)) {
			return len(b), false
		}
		return 0, false
	}
	n := 0
	for _, msg := range l.msgs {
		if len(b) < 4 {
			if len(b) == 0 && n == 0 {
				return 0, false
			}
			return len(c.b) - o, false
		}
		k := int(binary.LittleEndian.Uint32(b))
		if len(b) < 4+k {
			if k != proto.Size(msg) {
				return 0, false
			}
			return len(c.b) - o, false
		}
		got := &rwp.InboundMessage{}
		if err := proto.Unmarshal(b[4:4+k], got); err != nil || !proto.Equal(got, msg) {
			return 0, false
		}
		n += 4 + k
		b = b[4+k:]
	}
	return n, true
}

var _ core.World
