package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
)

var errSimPublish = errors.New("simulated publish failure")
var errSimSubscribe = errors.New("simulated subscribe failure")

// simnet is a message broker and its network, fully under the simulator's
// control: latency, loss, partitions, crashed nodes, failing operations.
type simnet struct {
	congested bool // a real bus has held up a publisher
	byServer  bool // channels are identified by Server+Local instead of Legacy
	drain     bool // a closed subscription still yields what it had buffered

	latMin, latMax time.Duration
	spikeDen       int // one message in spikeDen is late by up to spikeMax
	spikeMax       time.Duration

	lossNum, lossDen int // 0: no loss
	pubErrDen        int // one publish in pubErrDen fails
	slowDen          int // one publish in slowDen takes up to slowMax
	slowMax          time.Duration
	mangleDen        int // one request or response in mangleDen loses its meaning
	mangle           func(p *pub)
	subErr           func(node uint32, ch string) bool
	cut              map[uint32]bool // cut off from the broker
	dead             map[uint32]bool
	noFaults         bool // healed

	subs  map[string][]*simSub
	order []*simSub
	links map[string]*simLink

	onPublish func(p *pub)
	onRefused func(p *pub)
	onDeliver func(s *simSub, p *pub)
	dropRule  func(p *pub, s *simSub) bool

	nPub, nDeliver, nLost int
}

type pub struct {
	mangled *strMsg // what it carried
	id      int
	node    uint32
	ch      bus.Channel
	key     string
	msg     proto.Message
	raw     []byte
	at      stamp
	failed  bool
	targets []*simSub
}

type simSub struct {
	n      *simnet
	id     int
	node   uint32
	key    string
	ch     bus.Channel
	queue  bool
	size   int
	q      []*pub
	wake   chan struct{}
	closed chan struct{}
	isOpen bool
	opened stamp
	shut   stamp
	reads  int
	stall  time.Duration
}

// simLink keeps messages of one sender, channel and receiver in order.
type simLink struct {
	q   []*pub
	due time.Duration
}

func newSimnet() *simnet {
	return &simnet{
		cut:   map[uint32]bool{},
		dead:  map[uint32]bool{},
		subs:  map[string][]*simSub{},
		links: map[string]*simLink{},
	}
}

// simConn is the bus as one node sees it.
type simConn struct {
	n    *simnet
	node uint32
}

func (n *simnet) conn(node uint32) bus.MessageBus { return &simConn{n, node} }

func (n *simnet) key(ch bus.Channel) string {
	if n.byServer {
		return ch.Server + "\x00" + ch.Local
	}
	return ch.Legacy
}

func encodeMsg(msg proto.Message, channel string) ([]byte, error) {
	v, err := proto.Marshal(msg)
	if err != nil {
		return nil, err
	}
	return proto.Marshal(&internal.Msg{
		TypeUrl: "type.googleapis.com/" + string(msg.ProtoReflect().Descriptor().FullName()),
		Value:   v,
		Channel: channel,
	})
}

func (c *simConn) Publish(ctx context.Context, ch bus.Channel, msg proto.Message) error {
	runtime.VerifYield()
	raw, err := encodeMsg(msg, ch.Local)
	if err != nil {
		return err
	}
	return c.n.publish(ctx, c.node, ch, msg, raw)
}

func (n *simnet) publish(ctx context.Context, node uint32, ch bus.Channel, msg proto.Message, raw []byte) error {
	n.nPub++
	p := &pub{id: n.nPub, node: node, ch: ch, key: n.key(ch), msg: proto.Clone(msg), raw: raw, at: mark()}
	if n.dead[node] {
		return nil
	}
	if n.pubErrDen > 0 && !n.noFaults && FP(1, n.pubErrDen) {
		count("fault:publish_error")
		p.failed = true
		if n.onPublish != nil {
			n.onPublish(p)
		}
		logf("pub#%d node%d %s FAILS", p.id, node, p.key)
		if F(2) == 0 {
			return errSimPublish
		}
		n.route(p) // an error, but the message went out
		return errSimPublish
	}
	if n.onPublish != nil {
		n.onPublish(p)
	}
	if n.mangle != nil {
		n.mangle(p)
	}
	if n.slowDen > 0 && !n.noFaults && FP(1, n.slowDen) {
		count("fault:slow_publish")
		n.congested = true
		d := time.Duration(1 + F(int(n.slowMax)))
		logf("pub#%d node%d %s is held up for %v", p.id, p.node, p.key, d)
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
			logf("pub#%d given up: %v", p.id, ctx.Err())
			if n.onRefused != nil {
				n.onRefused(p)
			}
			return ctx.Err()
		}
	}
	if n.dead[node] {
		return nil
	}
	n.route(p)
	return nil
}

func (n *simnet) route(p *pub) {
	if n.cut[p.node] {
		count("fault:lost_cut")
		logf("pub#%d node%d %s lost (cut)", p.id, p.node, p.key)
		return
	}
	var group []*simSub
	for _, s := range n.subs[p.key] {
		if s.queue {
			group = append(group, s)
		} else {
			p.targets = append(p.targets, s)
		}
	}
	if len(group) > 0 {
		p.targets = append(p.targets, group[W(len(group))])
	}
	logf("pub#%d node%d %q %T -> %d", p.id, p.node, p.key, p.msg, len(p.targets))
	for _, s := range p.targets {
		n.send(p, s)
	}
}

// latBound is the longest a message takes.
func (n *simnet) latBound() time.Duration {
	if n.spikeDen > 0 {
		return n.latMax + n.spikeMax
	}
	return n.latMax
}

func (n *simnet) send(p *pub, s *simSub) {
	if n.dropRule != nil && n.dropRule(p, s) {
		n.nLost++
		return
	}
	if n.lossDen > 0 && !n.noFaults && FP(n.lossNum, n.lossDen) {
		count("fault:message_lost")
		n.nLost++
		logf("pub#%d lost on the way to sub%d", p.id, s.id)
		return
	}
	d := n.latMin
	if n.latMax > n.latMin {
		d += time.Duration(W(16)) * (n.latMax - n.latMin) / 15
	}
	if n.spikeDen > 0 && !n.noFaults && FP(1, n.spikeDen) {
		count("fault:message_delayed")
		d += time.Duration(F(64)) * n.spikeMax / 63
	}
	lk := fmt.Sprintf("%d/%s/%d", p.node, p.key, s.id)
	l := n.links[lk]
	if l == nil {
		l = &simLink{}
		n.links[lk] = l
	}
	at := now() + d
	if at < l.due {
		at = l.due
	}
	l.due = at
	l.q = append(l.q, p)
	deliver := func() {
		p := l.q[0]
		l.q = l.q[1:]
		n.deliver(p, s)
	}
	if at <= now() {
		deliver()
	} else {
		time.AfterFunc(at-now(), deliver)
	}
}

func (n *simnet) deliver(p *pub, s *simSub) {
	if n.cut[s.node] || n.dead[s.node] {
		count("fault:lost_cut")
		logf("pub#%d lost, sub%d cut off", p.id, s.id)
		return
	}
	if !s.isOpen {
		logf("pub#%d sub%d no longer open", p.id, s.id)
		return
	}
	n.nDeliver++
	s.q = append(s.q, p)
	if n.onDeliver != nil {
		n.onDeliver(s, p)
	}
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func (c *simConn) Subscribe(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	return c.n.subscribe(c.node, ch, size, false)
}

func (c *simConn) SubscribeQueue(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	return c.n.subscribe(c.node, ch, size, true)
}

func (n *simnet) subscribe(node uint32, ch bus.Channel, size int, queue bool) (bus.Reader, error) {
	runtime.VerifYield()
	if n.subErr != nil && n.subErr(node, n.key(ch)) {
		count("fault:subscribe_error")
		return nil, errSimSubscribe
	}
	s := &simSub{
		n: n, id: len(n.order) + 1, node: node, key: n.key(ch), ch: ch, queue: queue, size: size,
		wake: make(chan struct{}, 1), closed: make(chan struct{}), isOpen: true, opened: mark(),
	}
	n.subs[s.key] = append(n.subs[s.key], s)
	n.order = append(n.order, s)
	logf("sub%d node%d opens %q queue=%v", s.id, node, s.key, queue)
	runtime.VerifYield()
	return &bus.VerifReader{ReadFunc: s.read, CloseFunc: s.Close}, nil
}

func (s *simSub) read() ([]byte, bool) {
	for {
		if len(s.q) > 0 && (s.isOpen || s.n.drain) {
			p := s.q[0]
			s.q = s.q[1:]
			s.reads++
			return p.raw, true
		}
		if !s.isOpen {
			return nil, false
		}
		select {
		case <-s.wake:
		case <-s.closed:
		}
	}
}

func (s *simSub) Close() error {
	runtime.VerifYield()
	if !s.isOpen {
		return nil
	}
	s.isOpen = false
	s.shut = mark()
	l := s.n.subs[s.key]
	for i, x := range l {
		if x == s {
			s.n.subs[s.key] = append(append([]*simSub(nil), l[:i]...), l[i+1:]...)
			break
		}
	}
	logf("sub%d node%d closes %q", s.id, s.node, s.key)
	close(s.closed)
	runtime.VerifYield()
	return nil
}

// openSubs counts the open subscriptions of a node.
func (n *simnet) openSubs(node uint32) (r []string) {
	for _, s := range n.order {
		if s.node == node && s.isOpen {
			r = append(r, s.key)
		}
	}
	return
}

// crash makes a node vanish: its goroutines stop where they are, its
// subscriptions end, what it sent is still under way.
func (n *simnet) crash(node uint32) {
	n.dead[node] = true
	runtime.VerifPauseNode(node, -1)
	for _, s := range n.order {
		if s.node == node && s.isOpen {
			s.isOpen = false
			s.shut = mark()
			l := n.subs[s.key]
			for i, x := range l {
				if x == s {
					n.subs[s.key] = append(append([]*simSub(nil), l[:i]...), l[i+1:]...)
					break
				}
			}
		}
	}
	logf("node%d crashes", node)
}
