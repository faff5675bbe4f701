package main

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"syscall"
	"time"
)

// Simulated stream connections between the nodes of a run and one server
// (Redis or NATS): latency per direction, blackholed links which hold data
// back until they heal, connections which break and lose what is in flight,
// torn writes, refused and hanging dials.

type tcpNet struct {
	latMin, latMax time.Duration
	cut            map[uint32]bool // nothing passes between this node and the server
	down           bool            // the server refuses connections
	stall          bool            // the server processes nothing
	conns          []*tcpConn
	accept         func(*tcpConn)
	faults         map[uint32][]span
	open           map[uint32]int // faults in progress
	spikeDen       int
	spikeMax       time.Duration
}

// span is the time during which something was wrong.
type span struct {
	from, to time.Duration // to < 0: goes on
}

func newTCPNet() *tcpNet {
	return &tcpNet{cut: map[uint32]bool{}, faults: map[uint32][]span{}, open: map[uint32]int{}}
}

// fault notes that from now on, until the returned function is called, the node is in trouble.
func (t *tcpNet) fault(node uint32) func() {
	t.faults[node] = append(t.faults[node], span{now(), -1})
	i := len(t.faults[node]) - 1
	return func() { t.faults[node][i].to = now() }
}

// disturbed: some trouble of the node overlaps [a-after, b].
func (t *tcpNet) disturbed(node uint32, a, b, after time.Duration) bool {
	for _, s := range t.faults[node] {
		if s.from <= b && (s.to < 0 || s.to >= a-after) {
			return true
		}
	}
	return false
}

func (t *tcpNet) lat() time.Duration {
	d := t.latMin
	if t.latMax > t.latMin {
		d += time.Duration(runtime.VerifChoose(3, uint32((t.latMax-t.latMin)/(100*time.Microsecond))+1)) * 100 * time.Microsecond
	}
	if t.spikeDen > 0 && FP(1, t.spikeDen) {
		count("fault:latency_spike")
		d += time.Duration(F(int(t.spikeMax/ms))) * ms
	}
	return d
}

type tcpConn struct {
	t      *tcpNet
	id     int
	node   uint32
	toSrv  *tcpHalf
	toCli  *tcpHalf
	dead   bool
	closed bool // by the client
	user   any
}

type tcpHalf struct {
	c        *tcpConn
	toServer bool
	flight   []tcpChunk
	last     time.Duration
	buf      []byte
	err      error
	wake     chan struct{}
	deadline time.Time
	onData   func()
}

type tcpChunk struct {
	due time.Duration
	b   []byte
	fin bool
}

func (h *tcpHalf) put(b []byte, fin bool) {
	due := now() + h.c.t.lat()
	if due < h.last {
		due = h.last
	}
	h.last = due
	h.flight = append(h.flight, tcpChunk{due, append([]byte(nil), b...), fin})
	o := runtime.VerifSetNode(0)
	time.AfterFunc(due-now(), h.pump)
	runtime.VerifSetNode(o)
}

// pump moves what has arrived.
func (h *tcpHalf) pump() {
	if h.c.dead || h.c.t.cut[h.c.node] {
		return
	}
	moved := false
	for len(h.flight) > 0 && h.flight[0].due <= now() {
		f := h.flight[0]
		h.flight = h.flight[1:]
		h.buf = append(h.buf, f.b...)
		if f.fin && h.err == nil {
			h.err = io.EOF
		}
		moved = true
	}
	if moved {
		h.signal()
	}
}

func (h *tcpHalf) signal() {
	if h.onData != nil {
		h.onData()
		return
	}
	select {
	case h.wake <- struct{}{}:
	default:
	}
}

// kill breaks a connection: what is in flight is lost, but for a part of it.
func (c *tcpConn) kill() {
	if c.dead {
		return
	}
	logf("conn#%d of node%d breaks", c.id, c.node)
	for _, h := range []*tcpHalf{c.toSrv, c.toCli} {
		if len(h.flight) > 0 && F(2) == 0 {
			n := F(len(h.flight) + 1)
			for _, f := range h.flight[:n] {
				h.buf = append(h.buf, f.b...)
			}
			if n < len(h.flight) {
				h.buf = append(h.buf, h.flight[n].b[:F(len(h.flight[n].b)+1)]...)
				count("fault:torn_write")
			}
		}
		h.flight = nil
		if h.err == nil {
			h.err = io.EOF
			if F(2) == 0 {
				h.err = syscall.ECONNRESET
			}
		}
	}
	c.dead = true
	c.toSrv.signal()
	c.toCli.signal()
}

// dial connects a node to the server.
func (t *tcpNet) dial(ctx context.Context, node uint32) (net.Conn, error) {
	t0 := now()
	for t.cut[node] {
		// nobody answers
		select {
		case <-ctx.Done():
			return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: tcpAddr{}, Err: os.ErrDeadlineExceeded}
		case <-time.After(100 * ms):
		}
		if now()-t0 > 5*time.Second {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: tcpAddr{}, Err: os.ErrDeadlineExceeded}
		}
	}
	sleep(t.lat())
	if t.down {
		count("fault:connection_refused")
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: tcpAddr{}, Err: syscall.ECONNREFUSED}
	}
	c := &tcpConn{t: t, id: len(t.conns) + 1, node: node}
	c.toSrv = &tcpHalf{c: c, toServer: true, wake: make(chan struct{}, 1)}
	c.toCli = &tcpHalf{c: c, wake: make(chan struct{}, 1)}
	t.conns = append(t.conns, c)
	logf("conn#%d from node%d", c.id, node)
	t.accept(c)
	return c, nil
}

// heal lets everything that was held back arrive.
func (t *tcpNet) heal(node uint32) {
	delete(t.cut, node)
	for _, c := range t.conns {
		if c.node == node && !c.dead {
			c.toSrv.pump()
			c.toCli.pump()
		}
	}
}

func (t *tcpNet) of(node uint32) (r []*tcpConn) {
	for _, c := range t.conns {
		if c.node == node && !c.dead && !c.closed {
			r = append(r, c)
		}
	}
	return
}

// ---- the client's end -----------------------------------------------------

func (c *tcpConn) Read(p []byte) (int, error) {
	h := c.toCli
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(h.buf) > 0 {
			n := copy(p, h.buf)
			if i := bytes.LastIndex(p[:n], []byte("\r\n>")); i > 0 && n < len(h.buf) {
				// go-redis drops a RESP3 push whose header it gets in two parts
				n = i + 2
			}
			h.buf = h.buf[n:]
			return n, nil
		}
		if h.err != nil {
			return 0, h.err
		}
		if h.deadline.IsZero() {
			<-h.wake
			continue
		}
		d := time.Until(h.deadline)
		if d <= 0 {
			return 0, os.ErrDeadlineExceeded
		}
		t := time.NewTimer(d)
		select {
		case <-h.wake:
		case <-t.C:
		}
		t.Stop()
	}
}

func (c *tcpConn) Write(p []byte) (int, error) {
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.dead {
		return 0, syscall.EPIPE
	}
	if d := c.toSrv.deadline; !d.IsZero() && time.Until(d) <= 0 {
		return 0, os.ErrDeadlineExceeded
	}
	c.toSrv.put(p, false)
	return len(p), nil
}

func (c *tcpConn) Close() error {
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	if !c.dead {
		c.toSrv.put(nil, true)
	}
	c.toCli.signal()
	return nil
}

type tcpAddr struct{}

func (tcpAddr) Network() string { return "tcp" }
func (tcpAddr) String() string  { return "sim:1" }

func (c *tcpConn) LocalAddr() net.Addr  { return tcpAddr{} }
func (c *tcpConn) RemoteAddr() net.Addr { return tcpAddr{} }
func (c *tcpConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *tcpConn) SetReadDeadline(t time.Time) error {
	c.toCli.deadline = t
	select {
	case c.toCli.wake <- struct{}{}:
	default:
	}
	return nil
}
func (c *tcpConn) SetWriteDeadline(t time.Time) error {
	c.toSrv.deadline = t
	return nil
}

// SyscallConn lets the Redis client see that an idle connection is broken, as
// it does with a socket.
func (c *tcpConn) SyscallConn() (syscall.RawConn, error) { return tcpRaw{c}, nil }

type tcpRaw struct{ c *tcpConn }

func (r tcpRaw) Control(f func(fd uintptr)) error { return errors.ErrUnsupported }
func (r tcpRaw) Read(f func(fd uintptr) bool) error {
	if r.c.closed {
		return net.ErrClosed
	}
	if len(r.c.toCli.buf) == 0 {
		return r.c.toCli.err
	}
	return nil
}
func (r tcpRaw) Write(f func(fd uintptr) bool) error { return errors.ErrUnsupported }
