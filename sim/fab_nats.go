package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/nats-io/nats.go"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/verifsim/simpb"
)

// The NATS fabric: the real NATS bus and the real nats.go client over
// simulated connections to a simulated NATS server.

type natsFabric struct {
	w     *psWorld
	t     *tcpNet
	quiet bool
	execs map[*psMsg][]*natsExec
	conns []*nats.Conn
	ping  time.Duration
	wait  time.Duration
	calls *world // the calls that run over it
}

// natsExec is one execution of a PUB by the server.
type natsExec struct {
	at      stamp
	subject string
	to      []natsTo
}

type natsTo struct {
	c   *tcpConn
	sub *natsServerSub
}

type natsServerSub struct {
	subject, queue, sid string
	max, sent           int // UNSUB with a limit
	at                  stamp
}

type natsSess struct {
	c       *tcpConn
	subs    []*natsServerSub
	started bool
}

func newNatsNet(e *env) *natsFabric {
	t := newTCPNet()
	switch e.n(4) {
	case 1:
		t.latMax = ms
	case 2:
		t.latMin, t.latMax = ms, 3*ms
	case 3:
		t.latMax = 20 * ms
	}
	f := &natsFabric{t: t, execs: map[*psMsg][]*natsExec{}}
	f.ping = cpick(e.cfgRng, time.Second, 2*time.Minute)
	f.wait = cpick(e.cfgRng, 50*ms, 250*ms, 2*time.Second)
	t.accept = f.accept
	return f
}

func newNatsFabric(e *env, w *psWorld) *natsFabric {
	f := newNatsNet(e)
	f.w = w
	f.quiet = e.p(2, 5)
	if !f.quiet && e.p(1, 3) {
		f.t.spikeDen, f.t.spikeMax = cpick(e.cfgRng, 5, 20), cpick(e.cfgRng, 50*ms, 500*ms)
	}
	return f
}

type natsDialer struct {
	f    *natsFabric
	node uint32
}

func (d natsDialer) Dial(network, addr string) (net.Conn, error) {
	ctx, cf := context.WithTimeout(context.Background(), 2*time.Second)
	defer cf()
	return d.f.t.dial(ctx, d.node)
}

// newBus connects a node; its goroutines are those of node as.
func (f *natsFabric) newBus(node, as uint32) (b psrpc.MessageBus) {
	asNode(as, func() {
		var nc *nats.Conn
		err := errors.New("not connected")
		for err != nil {
			nc, err = nats.Connect("nats://127.0.0.1:4222", nats.SetCustomDialer(natsDialer{f, node}), nats.MaxReconnects(-1),
				nats.ReconnectWait(f.wait), nats.ReconnectJitter(20*ms, 20*ms), nats.PingInterval(f.ping), nats.IgnoreDiscoveredServers(),
				nats.ErrorHandler(func(_ *nats.Conn, s *nats.Subscription, err error) { logf("nats: node%d: %v", node, err) }))
			if err != nil {
				sleep(100 * ms)
			}
		}
		f.conns = append(f.conns, nc)
		b = psrpc.NewNatsMessageBus(nc)
	})
	return b
}

func (f *natsFabric) accept(c *tcpConn) {
	s := &natsSess{c: c}
	c.user = s
	c.toSrv.onData = func() { f.serve(s) }
	c.toCli.put([]byte(`INFO {"server_id":"SIM","server_name":"sim","version":"2.10.0","proto":1,"headers":true,"max_payload":1048576,"host":"127.0.0.1","port":4222,"client_id":`+strconv.Itoa(c.id)+"}\r\n"), false)
}

// serve executes every complete command that has arrived.
func (f *natsFabric) serve(s *natsSess) {
	h := s.c.toSrv
	if f.t.stall {
		return
	}
	for {
		i := bytes.Index(h.buf, []byte("\r\n"))
		if i < 0 {
			break
		}
		args := strings.Fields(string(h.buf[:i]))
		rest := h.buf[i+2:]
		if len(args) == 0 {
			h.buf = rest
			continue
		}
		op := strings.ToUpper(args[0])
		var payload []byte
		if op == "PUB" || op == "HPUB" {
			n, err := strconv.Atoi(args[len(args)-1])
			if err != nil {
				panic(fmt.Sprintf("nats: %q", args))
			}
			if len(rest) < n+2 {
				break
			}
			payload, rest = append([]byte(nil), rest[:n]...), rest[n+2:]
		}
		h.buf = rest
		f.exec(s, op, args[1:], payload)
	}
	if h.err != nil {
		if !s.c.dead {
			s.c.toCli.put(nil, true)
		}
		s.subs = nil
	}
}

// natsMatch is the matching of subjects: * is any token, > is any number of tokens.
func natsMatch(pattern, subject string) bool {
	p, s := strings.Split(pattern, "."), strings.Split(subject, ".")
	for i, x := range p {
		if x == ">" {
			return len(s) > i
		}
		if i >= len(s) || x != "*" && x != s[i] {
			return false
		}
	}
	return len(p) == len(s)
}

func (f *natsFabric) exec(s *natsSess, op string, args []string, payload []byte) {
	reply := func(r string) {
		if !s.c.dead && !s.c.closed {
			s.c.toCli.put([]byte(r), false)
		}
	}
	switch op {
	case "CONNECT":
		s.started = true
	case "PING":
		reply("PONG\r\n")
	case "PONG":
	case "SUB":
		x := &natsServerSub{subject: args[0], sid: args[len(args)-1], at: mark()}
		if len(args) == 3 {
			x.queue = args[1]
		}
		s.subs = append(s.subs, x)
		logf("nats: conn#%d subscribes %q queue=%q", s.c.id, x.subject, x.queue)
	case "UNSUB":
		for i, x := range s.subs {
			if x.sid == args[0] {
				if len(args) > 1 {
					x.max, _ = strconv.Atoi(args[1])
					if x.sent < x.max {
						break
					}
				}
				s.subs = append(s.subs[:i], s.subs[i+1:]...)
				logf("nats: conn#%d unsubscribes %q", s.c.id, x.subject)
				break
			}
		}
	case "PUB":
		x := &natsExec{at: mark(), subject: args[0]}
		groups := map[string][]natsTo{}
		var order []string
		for _, c := range f.t.conns {
			o, _ := c.user.(*natsSess)
			if o == nil || c.dead {
				continue
			}
			for _, sub := range o.subs {
				if !natsMatch(sub.subject, x.subject) {
					continue
				}
				if sub.queue == "" {
					x.to = append(x.to, natsTo{c, sub})
					continue
				}
				if groups[sub.queue] == nil {
					order = append(order, sub.queue)
				}
				groups[sub.queue] = append(groups[sub.queue], natsTo{c, sub})
			}
		}
		for _, q := range order {
			g := groups[q]
			t := g[int(runtime.VerifChoose(3, uint32(len(g))))]
			x.to = append(x.to, t)
			if f.calls != nil {
				f.calls.checkStray(t.c.node, x.subject, payload)
			}
		}
		for _, t := range x.to {
			if !t.c.closed {
				t.c.toCli.put([]byte(fmt.Sprintf("MSG %s %s %d\r\n%s\r\n", x.subject, t.sub.sid, len(payload), payload)), false)
			}
		}
		if m := f.msgOf(payload); m != nil {
			logf("nats: publish %d to %d subscriptions", m.id, len(x.to))
			if m.twin == nil {
				f.execs[m] = append(f.execs[m], x)
			} else {
				for _, m := range []*psMsg{m, m.twin} {
					y := *x
					y.to = slices.DeleteFunc(slices.Clone(x.to), func(t natsTo) bool { return (t.sub.queue != "") != m.ch.queue })
					f.execs[m] = append(f.execs[m], &y)
				}
			}
		}
	default:
		count("nats_unknown_command")
		reply("-ERR 'Unknown Protocol Operation'\r\n")
	}
}

func (f *natsFabric) msgOf(payload []byte) *psMsg {
	if f.w == nil {
		return nil
	}
	// the channel within the process is a field of its own
	var a anypb.Any
	if (proto.UnmarshalOptions{DiscardUnknown: true}).Unmarshal(payload, &a) != nil {
		return nil
	}
	u := &simpb.Upd{}
	if a.UnmarshalTo(u) != nil {
		return nil
	}
	return f.w.all[u.Id]
}

// ---- faults ------------------------------------------------------------------

func (f *natsFabric) chaos(e *env) {
	if f.quiet {
		return
	}
	f.t.chaos(f.w.nodes, 1+F(6), func() bool { return f.w.stop }, func() {}, f.resume)
}

func (f *natsFabric) resume() {
	for _, c := range f.t.conns {
		if s, ok := c.user.(*natsSess); ok && !c.dead {
			f.serve(s)
		}
	}
}

// ---- oracles -------------------------------------------------------------------

// settle is how long the consequences of a fault may last: a dead connection
// is noticed after three pings, a dial gives up after two seconds.
func (f *natsFabric) settleTime() time.Duration {
	return 3*min(f.ping, 10*time.Second) + 2*f.wait + 6*time.Second
}

// healed: the faults are over, everybody is connected again.
func (f *natsFabric) healed() {
	f.t.calm()
	f.t.spikeDen = 0
	if f.quiet {
		return
	}
	sleep(f.settleTime())
	for i, nc := range f.conns {
		if !nc.IsConnected() {
			panic(fmt.Sprintf("nats: connection %d not connected: %v", i, nc.Status()))
		}
	}
}

// checkClosed: the server has no subscriptions of a node with none open.
func (f *natsFabric) checkClosed() {
	for _, n := range f.w.nodes {
		open := 0
		if b, ok := f.w.buses[n].(*countBus); ok {
			for _, k := range b.open {
				open += k
			}
		}
		subs := 0
		var l []string
		for _, c := range f.t.conns {
			if s, ok := c.user.(*natsSess); ok && c.node == n && !c.dead {
				for _, x := range s.subs {
					subs++
					l = append(l, x.subject)
				}
			}
		}
		checked("P21")
		checked("P15")
		if subs > open {
			bad("P21 P15", "subscriptions", "node%d has %d subscriptions open, the server has %d for it: %q", n, open, subs, l)
		}
	}
}

// subscribeTime is how long after it was opened a subscription may miss messages.
func (f *natsFabric) subscribeTime() time.Duration {
	d := 2*f.t.latMax + 2*ms + 6*f.t.spikeMax
	for _, p := range f.w.paused {
		d += p
	}
	return d
}

// mayLose: this subscription need not have received this message.
func (f *natsFabric) mayLose(m *psMsg, s *psSub) bool {
	l := f.execs[m]
	if len(l) < m.copies {
		// never got to the server
		return f.t.disturbed(m.pub.node, m.start.t, m.start.t+10*time.Second, f.settleTime())
	}
	for _, x := range l {
		// one connection carries in order what its node subscribes and publishes
		late := idleSince(s.ready, x.at) < f.subscribeTime() && s.node != m.pub.node
		if late || f.t.disturbed(s.node, s.ready.t, x.at.t+10*time.Second, f.settleTime()) {
			return true
		}
		if !m.ch.queue {
			continue
		}
		for _, t := range x.to {
			if f.t.disturbed(t.c.node, x.at.t, x.at.t+10*time.Second, f.settleTime()) {
				return true
			}
			// the server did not yet know that it is closed
			for _, o := range m.ch.subs {
				if o.node == t.c.node && o.closing.ok() && idleSince(x.at, o.closing) < f.subscribeTime() && idleSince(o.gone(), x.at) < f.subscribeTime() {
					return true
				}
			}
		}
	}
	return false
}

// gone is when a subscription no longer receives anything.
func (s *psSub) gone() stamp {
	if s.ended.seq > s.closed.seq {
		return s.ended
	}
	return s.closed
}

// checkStray notes a request which a queue gave to a process that does not serve it.
func (w *world) checkStray(node uint32, subject string, payload []byte) {
	var in internal.Channel
	m, ok := decodeMsg(payload).(interface{ GetRequestId() string })
	if !ok || proto.Unmarshal(payload, &in) != nil {
		return
	}
	op := w.byReq[m.GetRequestId()]
	if op == nil {
		return
	}
	for _, s := range w.net.order {
		if s.node == node && s.isOpen && s.ch.Server == subject && s.ch.Local == in.Channel {
			return
		}
	}
	count("event:strayed")
	op.strayed = true
}

// strayed: the server gave a queue's message to a process which has no
// subscription of this channel.
func (f *natsFabric) strayed(m *psMsg) bool {
	for _, x := range f.execs[m] {
		for _, t := range x.to {
			mine := false
			for _, o := range m.ch.subs {
				mine = mine || o.node == t.c.node && o.err == nil && o.start.seq <= x.at.seq && (!o.closed.ok() || idleSince(o.gone(), x.at) < f.subscribeTime())
			}
			if mine && !f.readyFor(m.ch, t, x.at) {
				mine = false // it was still being opened, another method's subscription drew the message
			}
			if !mine {
				return true
			}
		}
	}
	return false
}

// readyFor: the process had a subscription of the channel, opened and not
// closed, or the server's subscription was made for one which was being opened.
func (f *natsFabric) readyFor(c *psChan, t natsTo, at stamp) bool {
	for _, o := range c.subs {
		if o.node != t.c.node || o.err != nil || o.start.seq > at.seq {
			continue
		}
		if o.ready.ok() && o.ready.seq <= at.seq && (!o.closing.ok() || o.closing.seq > at.seq) {
			return true
		}
		if t.sub.at.seq > o.start.seq && !f.w.rough {
			return true
		}
	}
	return false
}

var _ bus.Reader
