// Package simnet is the simulated TCP network: net.Conn implementations whose
// segmentation, timing, back-pressure, resets and closes are decided by the
// world that runs on it.  All goroutines run under the cooperative simulator
// (one runs at a time, switching only at explicit points), so no locks are
// needed, and none are used: a lock here would add happens-before edges that a
// real network does not have and hide data races in the code under test.
package simnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"syscall"
	"time"
)

// Net is one simulated network.
type Net struct {
	OnDial func(ctx context.Context, network, addr string) (net.Conn, error)
	Conns  []*Conn // client ends, in order of creation
}

// waitq is a FIFO of blocked goroutines.
type waitq struct{ q []*runtime.SimNote }

func (w *waitq) wait() {
	n := &runtime.SimNote{}
	w.q = append(w.q, n)
	n.Wait()
}

func (w *waitq) wakeAll() {
	q := w.q
	w.q = nil
	for _, n := range q {
		n.Set()
	}
}

// half is one direction of a connection.
type half struct {
	buf      [][]byte // segments that have arrived and were not read yet
	n        int      // bytes in buf
	window   int      // receive window: a writer blocks while n >= window
	fin      bool     // no more data will arrive (after buf)
	rst      bool     // reset by the writer's side (buf is still readable)
	readers  waitq
	writers  waitq
	drained  waitq
	total    int64
	consumed int64
}

// Conn is one end of a connection.
type Conn struct {
	ID     int
	Name   string
	net    *Net
	rd, wr *half
	peer   *Conn

	closed   bool
	ClosedAt time.Duration // simulated time of the local Close (if Closed)
	peerGone bool          // the peer closed completely; writes get an RST
	gotRST   bool

	rlock, wlock         bool
	rlockQ, wlockQ       waitq
	rdl, wdl             time.Time
	rtimer, wtimer       *time.Timer
	laddr, raddr         *net.TCPAddr
	SegmentReads         bool // a Read returns at most one arrived segment
	DeadlineSets         int
	ReadTimeouts         int
	WriteBlocked         int
	Ops                  []string
	OnWrite              func(n int)
	OnClose              func()
	ShortWriteErrAfter   int // >0: fail writes after this many more bytes (fault)
	shortWriteErrCounter int
}

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// Now is the simulated time since the start of the run.
func Now() time.Duration { return time.Duration(runtime.SimNow() - epoch.UnixNano()) }

// Pair makes a connected pair: the client end and the panel end.
func (n *Net) Pair(window int) (*Conn, *Conn) {
	if window <= 0 {
		window = 1 << 20
	}
	a2b := &half{window: window}
	b2a := &half{window: 1 << 30}
	id := len(n.Conns)
	c := &Conn{ID: id, Name: "c" + strconv.Itoa(id), net: n, rd: b2a, wr: a2b}
	p := &Conn{ID: id, Name: "p" + strconv.Itoa(id), net: n, rd: a2b, wr: b2a}
	c.peer, p.peer = p, c
	c.laddr = &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 40000 + id}
	c.raddr = &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 9923}
	p.laddr, p.raddr = c.raddr, c.laddr
	n.Conns = append(n.Conns, c)
	return c, p
}

func (c *Conn) operr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) Read(p []byte) (int, error) {
	for c.rlock {
		if c.closed {
			return 0, c.operr("read", net.ErrClosed)
		}
		c.rlockQ.wait()
	}
	c.rlock = true
	defer func() { c.rlock = false; c.rlockQ.wakeAll() }()
	runtime.SimYield()
	for {
		if c.closed {
			return 0, c.operr("read", net.ErrClosed)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if expired(c.rdl) {
			c.ReadTimeouts++
			return 0, c.operr("read", os.ErrDeadlineExceeded)
		}
		if c.rd.n > 0 {
			got := 0
			for got < len(p) && len(c.rd.buf) > 0 {
				k := copy(p[got:], c.rd.buf[0])
				got += k
				if k == len(c.rd.buf[0]) {
					c.rd.buf = c.rd.buf[1:]
				} else {
					c.rd.buf[0] = c.rd.buf[0][k:]
				}
				if c.SegmentReads {
					break
				}
			}
			c.rd.n -= got
			c.rd.consumed += int64(got)
			c.rd.writers.wakeAll()
			if c.rd.n == 0 {
				c.rd.drained.wakeAll()
			}
			return got, nil
		}
		if c.rd.rst || c.gotRST {
			return 0, c.operr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if c.rd.fin {
			return 0, io.EOF
		}
		c.rd.readers.wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	for c.wlock {
		if c.closed {
			return 0, c.operr("write", net.ErrClosed)
		}
		c.wlockQ.wait()
	}
	c.wlock = true
	defer func() { c.wlock = false; c.wlockQ.wakeAll() }()
	runtime.SimYield()
	done := 0
	for {
		if c.closed {
			return done, c.operr("write", net.ErrClosed)
		}
		if expired(c.wdl) {
			return done, c.operr("write", os.ErrDeadlineExceeded)
		}
		if c.wr.rst || c.gotRST || c.rd.rst {
			return done, c.operr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if c.peerGone {
			// The peer is gone: this data is accepted by the kernel, answered
			// by an RST and lost; the next write fails.
			c.gotRST = true
			c.rd.readers.wakeAll()
			return len(p), nil
		}
		if done == len(p) {
			if c.OnWrite != nil {
				c.OnWrite(done)
			}
			return done, nil
		}
		room := c.wr.window - c.wr.n
		if room <= 0 {
			c.WriteBlocked++
			c.wr.writers.wait()
			continue
		}
		k := len(p) - done
		if k > room {
			k = room
		}
		seg := append([]byte(nil), p[done:done+k]...)
		c.wr.push(seg)
		done += k
		runtime.SimYield()
	}
}

func (h *half) push(seg []byte) {
	if len(seg) == 0 {
		return
	}
	h.buf = append(h.buf, seg)
	h.n += len(seg)
	h.total += int64(len(seg))
	h.readers.wakeAll()
}

// Send delivers one segment to the other end at once, ignoring the window
// (used by the scripted panels).  It reports whether the other end could still
// receive it.
func (c *Conn) Send(seg []byte) bool {
	if c.closed || c.wr.fin || c.wr.rst || c.peer.closed {
		return false
	}
	c.wr.push(append([]byte(nil), seg...))
	return true
}

// Close closes this end.
func (c *Conn) Close() error {
	if c.closed {
		return c.operr("close", net.ErrClosed)
	}
	runtime.SimYield()
	if c.closed {
		return c.operr("close", net.ErrClosed)
	}
	c.closed = true
	c.ClosedAt = Now()
	c.stopTimers()
	if c.rd.n > 0 {
		// unread data: the kernel answers with a reset
		c.wr.rst = true
	}
	c.wr.fin = true
	c.peer.peerGone = true
	c.wakeEverybody()
	if c.OnClose != nil {
		c.OnClose()
	}
	return nil
}

// Reset aborts the connection from this end (RST to the other side).
func (c *Conn) Reset() {
	if c.closed {
		return
	}
	c.closed = true
	c.ClosedAt = Now()
	c.stopTimers()
	c.wr.rst = true
	c.wr.fin = true
	c.peer.peerGone = true
	c.wakeEverybody()
}

// CloseWrite sends FIN but keeps reading.
func (c *Conn) CloseWrite() error {
	if c.closed {
		return c.operr("close", net.ErrClosed)
	}
	c.wr.fin = true
	c.wakeEverybody()
	return nil
}

// CloseRead is accepted and ignored.
func (c *Conn) CloseRead() error { return nil }

func (c *Conn) wakeEverybody() {
	c.rd.readers.wakeAll()
	c.rd.writers.wakeAll()
	c.wr.readers.wakeAll()
	c.wr.writers.wakeAll()
	c.rlockQ.wakeAll()
	c.wlockQ.wakeAll()
	c.rd.drained.wakeAll()
	c.wr.drained.wakeAll()
}

func (c *Conn) stopTimers() {
	if c.rtimer != nil {
		c.rtimer.Stop()
		c.rtimer = nil
	}
	if c.wtimer != nil {
		c.wtimer.Stop()
		c.wtimer = nil
	}
}

// Closed reports whether this end was closed.
func (c *Conn) Closed() bool { return c.closed }

// PeerClosed reports whether the other end was closed.
func (c *Conn) PeerClosed() bool { return c.peer.closed }

// Unread is the number of bytes that arrived here and were not read.
func (c *Conn) Unread() int { return c.rd.n }

// Consumed is the number of bytes read from this end so far.
func (c *Conn) Consumed() int64 { return c.rd.consumed }

// Received is the number of bytes that have arrived at this end so far.
func (c *Conn) Received() int64 { return c.rd.total }

// Peer is the other end.
func (c *Conn) Peer() *Conn { return c.peer }

func (c *Conn) LocalAddr() net.Addr  { return c.laddr }
func (c *Conn) RemoteAddr() net.Addr { return c.raddr }

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return c.operr("set", net.ErrClosed)
	}
	runtime.SimYield()
	c.DeadlineSets++
	if c.rtimer != nil {
		c.rtimer.Stop()
		c.rtimer = nil
	}
	c.rdl = t
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			c.rtimer = time.AfterFunc(d, func() { c.rd.readers.wakeAll() })
		} else {
			c.rd.readers.wakeAll()
		}
	}
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return c.operr("set", net.ErrClosed)
	}
	if c.wtimer != nil {
		c.wtimer.Stop()
		c.wtimer = nil
	}
	c.wdl = t
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			c.wtimer = time.AfterFunc(d, func() { c.wr.writers.wakeAll() })
		} else {
			c.wr.writers.wakeAll()
		}
	}
	return nil
}

func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetLinger(int) error                    { return nil }
func (c *Conn) SetReadBuffer(int) error                { return nil }
func (c *Conn) SetWriteBuffer(int) error               { return nil }

// Dial errors.
var (
	ErrRefused     = os.NewSyscallError("connect", syscall.ECONNREFUSED)
	ErrUnreachable = os.NewSyscallError("connect", syscall.EHOSTUNREACH)
	ErrTimedOut    = os.NewSyscallError("connect", syscall.ETIMEDOUT)
)

// IsClosedErr reports whether err says the local end was closed.
func IsClosedErr(err error) bool { return errors.Is(err, net.ErrClosed) }

// Pending is a copy of the bytes that have arrived here and were not read.
func (c *Conn) Pending() []byte {
	var b []byte
	for _, s := range c.rd.buf {
		b = append(b, s...)
	}
	return b
}
