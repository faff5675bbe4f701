package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/verifsim/simpb"
	"github.com/livekit/psrpc/pkg/info"
)

func init() {
	scenario(3, "pubsub over the simulated network", func(e *env) { runPubSub(e, fabricSim) })
	scenario(4, "pubsub over the local bus", func(e *env) { runPubSub(e, fabricLocal) })
	scenario(7, "pubsub over the Redis bus", func(e *env) { runPubSub(e, fabricRedis) })
	scenario(9, "pubsub over the NATS bus", func(e *env) { runPubSub(e, fabricNats) })
}

const (
	fabricSim = iota
	fabricLocal
	fabricRedis
	fabricNats
)

// psChan is something that can be published to and subscribed to.
type psChan struct {
	w     *psWorld
	name  string
	ch    bus.Channel
	queue bool
	sub   func(ctx context.Context, node uint32, size int) (psSubscription, error)
	pub   func(ctx context.Context, node uint32, m *simpb.Upd) error
	raw   func(ctx context.Context, node uint32, m proto.Message) error // of any type
	subs  []*psSub
	msgs  []*psMsg
	other func() *psChan // makes the following
	twin  *psChan        // the same channel, with the other kind of subscriptions
}

type psSubscription interface {
	Channel() <-chan *simpb.Upd
	Close() error
}

type psMsg struct {
	id         uint64
	ch         *psChan
	pub        *psPub
	idx        int
	blob       []byte
	copies     int // times the very same message is published
	start, end stamp
	err        error
	got        []*psSub
	twin       *psMsg // the same message, as the other kind of subscriptions see it
}

type psPub struct {
	id   int
	node uint32
}

// reading habits
const (
	rdPrompt = iota
	rdSlow
	rdStall   // stops for a while
	rdNever   // does not read before it is closed
	rdAbandon // stops reading some time, for good
	psSettled = 5 * time.Second
)

type psSub struct {
	id           int
	ch           *psChan
	node         uint32
	size         int
	sub          psSubscription
	start, ready stamp
	closing      stamp
	closed       stamp
	ended        stamp // channel closed
	mode         int
	stallAt      int
	stallFor     time.Duration
	got          []*psMsg
	gotAt        []stamp
	unread       bool // is not reading at present
	err          error
	cancelled    bool
	abandoned    bool // nobody reads it any more
	cancel       context.CancelFunc
}

func (s *psSub) String() string { return fmt.Sprintf("sub-%d on %s", s.id, s.ch.name) }

type psWorld struct {
	*world
	buses      map[uint32]psrpc.MessageBus
	chans      []*psChan
	all        map[uint64]*psMsg
	subs       []*psSub
	pubs       []*psPub
	nodes      []uint32
	g          *group
	stop       bool
	lossyPS    bool
	nOps       int
	foreigners bool
	redis      *redisFabric
	nats       *natsFabric
}

// props names the properties an anomaly of a channel violates.
func (c *psChan) props() string {
	p := "P08"
	if c.queue {
		p = "P09"
	}
	if c.w.foreigners && c.raw != nil {
		p += " P18"
	}
	switch c.w.fabric {
	case fabricLocal:
		return p + " P22"
	case fabricRedis:
		return p + " P20"
	case fabricNats:
		return p + " P21"
	}
	return p
}

func (w *psWorld) props() string {
	switch w.fabric {
	case fabricLocal:
		return "P22"
	case fabricRedis:
		return "P20"
	case fabricNats:
		return "P21"
	}
	return "P08"
}

func (c *psChan) checked() {
	for _, p := range strings.Fields(c.props()) {
		checked(p)
	}
}

func (w *psWorld) busOf(node uint32) psrpc.MessageBus {
	if w.shared != nil {
		return w.shared
	}
	b := w.buses[node]
	if b == nil {
		switch w.fabric {
		case fabricSim:
			b = w.net.conn(node)
		case fabricRedis:
			b = &countBus{w.redis.newBus(node, node), map[string]int{}}
		case fabricNats:
			b = &countBus{w.nats.newBus(node, node), map[string]int{}}
		}
		w.buses[node] = b
	}
	return b
}

// open subscribes; the subscription then reads by its mode until it is closed.
func (w *psWorld) open(c *psChan, node uint32, size, mode int) *psSub {
	s := &psSub{id: len(w.subs) + 1, ch: c, node: node, size: size, mode: mode}
	if mode == rdStall || mode == rdAbandon {
		s.stallAt, s.stallFor = W(6), time.Duration(W(1500))*ms
	}
	w.subs = append(w.subs, s)
	ctx, cf := context.WithCancel(context.Background())
	s.cancel = cf
	o := runtime.VerifSetNode(node)
	s.start = mark()
	c.subs = append(c.subs, s)
	logf("%s node%d opening", s, node)
	s.sub, s.err = c.sub(ctx, node, size)
	s.ready = mark()
	runtime.VerifSetNode(o)
	if d := idleSince(s.start, s.ready) - w.paused[node]; d > eps && !w.reconnects(node, s.start) {
		bad(w.props()+" P23", "subscribe-late", "%s: subscribing took %v", s, d)
	}
	if s.err != nil {
		logf("%s failed: %v", s, s.err)
		bad(w.props(), "subscribe-failed", "%s: %v", s, s.err)
		s.closing, s.closed, s.ended = s.ready, s.ready, s.ready
		return s
	}
	logf("%s opened mode=%d", s, mode)
	w.g.Go(node, s.read)
	return s
}

// reconnects: the client library of this node may be busy connecting, and lets everybody wait.
func (w *psWorld) reconnects(node uint32, from stamp) bool {
	return w.nats != nil && w.nats.t.disturbed(node, from.t, now(), w.nats.settleTime())
}

func (s *psSub) read() {
	w := s.ch.w
	if s.mode == rdNever {
		s.unread = true
		count("event:subscriber_never_reads")
		waitUntil(200*time.Second, func() bool { return s.closed.ok() })
	}
	for {
		if s.mode == rdStall && len(s.got) == s.stallAt {
			s.unread = true
			count("event:subscriber_stalls")
			sleep(s.stallFor)
			s.unread = false
		}
		if s.mode == rdAbandon && len(s.got) >= s.stallAt {
			s.unread, s.abandoned = true, true
			count("event:subscriber_gives_up")
			logf("%s gives up after %d", s, len(s.got))
			return
		}
		u, ok := <-s.sub.Channel()
		if !ok {
			break
		}
		s.take(u)
		if s.mode == rdSlow && !w.stop {
			s.unread = true
			sleep(time.Duration(W(40)) * ms)
			s.unread = false
		}
	}
	s.ended = mark()
	logf("%s ended after %d", s, len(s.got))
	if !s.closing.ok() && !s.cancelled {
		bad(s.ch.props(), "ended-unasked", "%s: channel closed although nobody closed it", s)
	}
	_ = w
}

func (s *psSub) take(u *simpb.Upd) {
	w := s.ch.w
	m := w.all[u.GetId()]
	at := mark()
	s.ch.checked()
	if m == nil {
		bad(s.ch.props()+" P10", "unknown-message", "%s received message %d that nobody published", s, u.GetId())
		return
	}
	if m.ch != s.ch && m.twin != nil && m.twin.ch == s.ch {
		m = m.twin
	}
	if m.ch != s.ch {
		checked("P10")
		bad("P10 "+s.ch.props(), "wrong-channel", "%s received message %d of %s", s, m.id, m.ch.name)
		return
	}
	checked("P10")
	if string(u.Blob) != string(m.blob) || u.Pub != fmt.Sprint(m.pub.id) {
		bad(s.ch.props(), "altered", "%s received message %d altered", s, m.id)
	}
	// what a subscriber does with its message is nobody else's business
	u.Id, u.Pub = ^uint64(0), "taken"
	for j := range u.Blob {
		u.Blob[j] = '?'
	}
	m.got = append(m.got, s)
	mine := 0
	for _, x := range m.got {
		if x == s {
			mine++
		}
	}
	switch {
	case s.ch.queue && len(m.got) > m.copies:
		if !w.mayRepeat(m) {
			bad(s.ch.props(), "queue-duplicate", "%s received message %d, published %d times and received by %v before", s, m.id, m.copies, m.got[:len(m.got)-1])
		}
	case mine > m.copies:
		if !w.mayRepeat(m) {
			bad(s.ch.props(), "duplicate", "%s received message %d %d times, published %d times", s, m.id, mine, m.copies)
		}
	}
	s.got = append(s.got, m)
	s.gotAt = append(s.gotAt, at)
	logf("%s receives %d", s, m.id)
}

func (s *psSub) close() {
	w := s.ch.w
	m := mark()
	if !s.closing.ok() {
		s.closing = m
	}
	logf("%s closing", s)
	asNode(s.node, func() { s.sub.Close() })
	e := mark()
	if !s.closed.ok() {
		s.closed = e
	}
	logf("%s closed", s)
	checked("P23")
	if d := idleSince(m, e) - w.paused[s.node]; d > eps && !w.reconnects(s.node, m) {
		bad(w.props()+" P23", "close-late", "%s: closing took %v", s, d)
	}
}

// cancelThenClose ends the context of the subscription, and closes it later.
func (s *psSub) cancelThenClose() {
	w := s.ch.w
	if s.cancelled || s.closing.ok() {
		return
	}
	count("event:subscription_context_ended")
	logf("%s context ends", s)
	s.cancelled = true
	m := mark()
	s.cancel()
	if s.mode == rdPrompt && w.fabric == fabricLocal {
		waitUntil(time.Second, func() bool { return s.ended.ok() })
		checked("P15")
		if !s.ended.ok() && idleSince(m, mark())-w.paused[s.node] > 100*ms {
			bad(s.ch.props()+" P15", "never-ended", "%s: its context ended, but its channel is still open", s)
		}
	}
	sleep(time.Duration(W(50)) * ms)
	s.close()
}

func (w *psWorld) publish(p *psPub, c *psChan) *psMsg {
	m := &psMsg{id: w.id(), ch: c, pub: p, idx: len(c.msgs), copies: 1}
	if WP(1, 8) {
		m.copies = 2
	}
	if WP(1, 5) {
		m.blob = []byte(fmt.Sprintf("blob of %d", m.id))
		if WP(1, 4) {
			m.blob = []byte(strings.Repeat(fmt.Sprintf("large blob of %d ", m.id), 1+W(400)))
			count("event:large_message")
		}
	}
	if WP(1, 8) {
		w.foreign(p, c)
	}
	ctx, timeout := context.Background(), time.Duration(0)
	if (w.fabric == fabricLocal || w.fabric == fabricSim) && WP(1, 8) {
		timeout = time.Duration(W(40)) * ms
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, timeout)
		defer cancel()
		count("event:publication_with_deadline")
	}
	w.all[m.id] = m
	c.msgs = append(c.msgs, m)
	if c.twin != nil {
		count("event:message_for_both_kinds")
		m.twin = &psMsg{id: m.id, ch: c.twin, pub: p, idx: len(c.twin.msgs), copies: m.copies, blob: m.blob, twin: m}
		c.twin.msgs = append(c.twin.msgs, m.twin)
	}
	m.start = mark()
	if m.twin != nil {
		m.twin.start = m.start
	}
	for i := 0; i < m.copies && m.err == nil; i++ {
		u := &simpb.Upd{Id: m.id, Pub: fmt.Sprint(p.id), Blob: slices.Clone(m.blob)}
		m.err = c.pub(ctx, p.node, u)
		// the message is the publisher's again
		u.Id, u.Pub = ^uint64(0), "scribbled"
		for j := range u.Blob {
			u.Blob[j] = '!'
		}
	}
	m.end = mark()
	if m.twin != nil {
		m.twin.end, m.twin.err = m.end, m.err
	}
	logf("pub-%d publishes %d to %s: %v", p.id, m.id, c.name, m.err)
	// only subscribers of this very channel may make a publisher wait
	slow := false
	for _, s := range c.subs {
		slow = slow || s.mode != rdPrompt
	}
	if c.twin != nil {
		for _, s := range c.twin.subs {
			slow = slow || s.mode != rdPrompt
		}
	}
	checked(w.props())
	if d := idleSince(m.start, m.end) - w.paused[p.node]; timeout > 0 && d > timeout+eps+w.totalPause() {
		bad(c.props(), "publish-after-deadline", "publishing %d to %s took %v although its context ended after %v", m.id, c.name, d, timeout)
	}
	if d := idleSince(m.start, m.end) - w.paused[p.node]; !slow && d > eps+w.totalPause() && !w.reconnects(p.node, m.start) {
		bad(c.props(), "publish-late", "publishing %d to %s took %v, all its subscribers read promptly", m.id, c.name, d)
	}
	return m
}

// foreign publishes a message of another type to the channel; subscribers skip it.
func (w *psWorld) foreign(p *psPub, c *psChan) {
	if c.raw == nil || !w.foreigners {
		return
	}
	if (w.redis != nil || w.nats != nil) && WP(1, 2) {
		w.garbage(c)
		return
	}
	count("fault:message_of_another_type")
	var m proto.Message = &simpb.Req{}
	if WP(1, 2) {
		m = &simpb.Resp{}
	}
	logf("pub-%d publishes a %T to %s: %v", p.id, m, c.name, c.raw(context.Background(), p.node, m))
}

// garbage has the server of the bus pass on what no bus of ours published.
func (w *psWorld) garbage(c *psChan) {
	whole, err := encodeMsg(&simpb.Upd{Id: 1<<63 + w.id(), Pub: "nobody"}, c.ch.Local)
	if err != nil {
		panic(err)
	}
	var b []byte
	switch F(5) {
	case 0:
		b = garbage[:1+F(len(garbage))]
	case 1: // empty
	case 2:
		b = whole[:len(whole)-1]
	case 3:
		b, _ = proto.Marshal(&internal.Msg{TypeUrl: "type.googleapis.com/verif.Unknown", Value: garbage[11:], Channel: c.ch.Local})
	case 4:
		b, _ = proto.Marshal(&internal.Msg{TypeUrl: "not a type", Channel: "of nobody"})
	}
	count("fault:garbage_on_the_bus")
	logf("the server passes %d bytes of garbage on to %s", len(b), c.name)
	if w.redis != nil {
		w.redis.exec(&redisSess{c: &tcpConn{dead: true}}, []string{"PUBLISH", c.ch.Legacy, string(b)})
	} else {
		w.nats.exec(&natsSess{c: &tcpConn{dead: true}}, "PUB", []string{c.ch.Server}, b)
	}
}

func (w *psWorld) totalPause() (d time.Duration) {
	for _, x := range w.paused {
		d += x
	}
	return
}

// ---- channels ------------------------------------------------------------------

func (w *psWorld) rawChan(i *info.RequestInfo) *psChan {
	return w.busChan(fmt.Sprintf("%s.%s%q", i.Service, i.Method, i.Topic), i.GetRPCChannel(), i.Queue)
}

// busChan uses the bus itself.
func (w *psWorld) busChan(name string, ch bus.Channel, queue bool) *psChan {
	pub := func(ctx context.Context, node uint32, m proto.Message) error {
		return w.busOf(node).Publish(ctx, ch, m)
	}
	return &psChan{
		w: w, ch: ch, queue: queue,
		name:  fmt.Sprintf("%s queue=%v", name, queue),
		other: func() *psChan { return w.busChan(name, ch, !queue) },
		sub: func(ctx context.Context, node uint32, size int) (psSubscription, error) {
			if queue {
				return wrapSub(bus.SubscribeQueue[*simpb.Upd](ctx, w.busOf(node), ch, size))
			}
			return wrapSub(bus.Subscribe[*simpb.Upd](ctx, w.busOf(node), ch, size))
		},
		pub: func(ctx context.Context, node uint32, m *simpb.Upd) error { return pub(ctx, node, m) },
		raw: pub,
	}
}

// directChan is a channel of one client, as responses use it.
func (w *psWorld) directChan(service, client string, queue bool) *psChan {
	return w.busChan(fmt.Sprintf("direct %s.%s", service, client), info.GetResponseChannel(service, client), queue)
}

func wrapSub(s bus.Subscription[*simpb.Upd], err error) (psSubscription, error) {
	if err != nil {
		return nil, err
	}
	return s, nil
}

type stubNode struct {
	cli  simpb.SimClient
	cli2 simpb.Sim2Client
	srv  simpb.SimServer
	srv2 simpb.Sim2Server
	err  error
}

// stubChan is a subscription method of the generated code.
func (w *psWorld) stubChan(stubs map[uint32]*stubNode, service, method, topic string) *psChan {
	c := &psChan{w: w, queue: strings.HasSuffix(method, "Q"), name: fmt.Sprintf("%s.%s%q", service, method, topic)}
	c.sub = func(ctx context.Context, node uint32, size int) (psSubscription, error) {
		st := stubs[node]
		var s psrpc.Subscription[*simpb.Upd]
		var err error
		switch service + method {
		case "SimUpdQ":
			s, err = st.cli.SubscribeUpdQ(ctx)
		case "SimUpdAll":
			s, err = st.cli.SubscribeUpdAll(ctx)
		case "SimTUpdQ":
			s, err = st.cli.SubscribeTUpdQ(ctx, topic)
		case "SimTUpdAll":
			s, err = st.cli.SubscribeTUpdAll(ctx, topic)
		case "Sim2TUpdAll":
			s, err = st.cli2.SubscribeTUpdAll(ctx, topic)
		}
		if err != nil {
			return nil, err
		}
		return s, nil
	}
	c.pub = func(ctx context.Context, node uint32, m *simpb.Upd) error {
		st := stubs[node]
		switch service + method {
		case "SimUpdQ":
			return st.srv.PublishUpdQ(ctx, m)
		case "SimUpdAll":
			return st.srv.PublishUpdAll(ctx, m)
		case "SimTUpdQ":
			return st.srv.PublishTUpdQ(ctx, topic, m)
		case "SimTUpdAll":
			return st.srv.PublishTUpdAll(ctx, topic, m)
		case "Sim2TUpdAll":
			return st.srv2.PublishTUpdAll(ctx, topic, m)
		}
		return errors.New("no such method")
	}
	return c
}

type sim2Impl struct {
	simpb.UnimplementedSim2Server
}

func (w *psWorld) stub(node uint32, size int) *stubNode {
	st := &stubNode{}
	b := w.busOf(node)
	asNode(node, func() {
		var err error
		id := fmt.Sprintf("n%d", node)
		if st.cli, err = simpb.NewSimClient(b, psrpc.WithClientID("c"+id), psrpc.WithClientChannelSize(size)); err != nil {
			st.err = err
		}
		if st.cli2, err = simpb.NewSim2Client(b, psrpc.WithClientID("d"+id), psrpc.WithClientChannelSize(size)); err != nil {
			st.err = err
		}
		if st.srv, err = simpb.NewSimServer(&simImpl{s: &snode{w: w.world, node: node, id: "srv-" + id}}, b, psrpc.WithServerID("s"+id)); err != nil {
			st.err = err
		}
		if st.srv2, err = simpb.NewSim2Server(&sim2Impl{}, b, psrpc.WithServerID("t"+id)); err != nil {
			st.err = err
		}
	})
	return st
}

// ---- the scenario ------------------------------------------------------------------

func runPubSub(e *env, fabric int) {
	w := &psWorld{buses: map[uint32]psrpc.MessageBus{}, all: map[uint64]*psMsg{}, g: newGroup()}
	var c chaosPlan
	if fabric == fabricSim {
		c = e.plan()
		c.pubErr, c.crash, c.slowPub = false, false, false
		w.world = newWorld(e.network(c))
		w.net.pubErrDen = 0
		w.lossyPS = c.loss || c.cut
	} else {
		w.world = newWorld(newSimnet())
		c.pause = e.p(1, 4)
	}
	switch fabric {
	case fabricLocal:
		w.shared = psrpc.NewLocalMessageBus()
		w.fabric = fabric
	case fabricRedis:
		w.fabric = fabric
		w.redis = newRedisFabric(e, w)
	case fabricNats:
		w.fabric = fabric
		w.nats = newNatsFabric(e, w)
	}
	nNodes := e.between(1, 4)
	for i := 0; i < nNodes; i++ {
		w.nodes = append(w.nodes, w.node())
	}
	for _, n := range w.nodes {
		w.busOf(n)
	}
	node := func() uint32 { return w.nodes[W(len(w.nodes))] }
	sizes := func() int { return pick(100, 1, 2, 5, 0) }
	stubs := map[uint32]*stubNode{}
	useStubs := e.p(1, 3) || fabric == fabricSim && e.p(2, 3)
	stubSize := cpick(e.cfgRng, 100, 1, 2, 5)
	if useStubs {
		for _, n := range w.nodes {
			stubs[n] = w.stub(n, stubSize)
			if stubs[n].err != nil {
				bad(w.props(), "stub-failed", "node%d: %v", n, stubs[n].err)
				return
			}
		}
	}
	topics := topicPool
	if e.focus == 10 || e.p(1, 4) {
		topics = e.topics(e.between(2, 4))
	}
	topic := func() string { return topics[e.n(len(topics))] }
	queueBias := 0
	switch e.focus {
	case 8:
		queueBias = -1
	case 9:
		queueBias = 1
	}
	q := func() bool {
		if queueBias != 0 && e.p(4, 5) {
			return queueBias > 0
		}
		return e.p(1, 2)
	}
	tw := &cfgRng{runtime.VerifSeed() ^ 0x7477}
	mixed := tw.n(4) == 0
	nCh := e.between(1, 4)
	have, kind := map[string]bool{}, map[string]bool{}
	for i := 0; i < nCh; i++ {
		var ch *psChan
		switch {
		case useStubs:
			switch e.n(3) {
			case 0:
				if q() {
					ch = w.stubChan(stubs, "Sim", "UpdQ", "")
				} else {
					ch = w.stubChan(stubs, "Sim", "UpdAll", "")
				}
			case 1:
				if q() {
					ch = w.stubChan(stubs, "Sim", "TUpdQ", topic())
				} else {
					ch = w.stubChan(stubs, "Sim", "TUpdAll", topic())
				}
			case 2:
				if queueBias > 0 {
					ch = w.stubChan(stubs, "Sim", "TUpdQ", topic())
				} else {
					ch = w.stubChan(stubs, "Sim2", "TUpdAll", topic())
				}
			}
		case e.p(1, 5):
			ch = w.directChan(cpick(e.cfgRng, "S", "T"), cpick(e.cfgRng, "c1", "c2"), q() && e.p(1, 2))
		default:
			ri := &info.RequestInfo{RPCInfo: psrpc.RPCInfo{Service: cpick(e.cfgRng, "S", "S", "T"), Method: cpick(e.cfgRng, "M", "N", "O"), Multi: true}}
			// a method is a queue or not, with every topic
			k := ri.Service + "." + ri.Method
			if _, ok := kind[k]; !ok {
				kind[k] = q()
			}
			ri.Queue = kind[k]
			ri.Multi = !ri.Queue
			if e.p(1, 2) {
				ri.Topic = []string{topic()}
				if e.p(1, 4) {
					ri.Topic = append(ri.Topic, topic())
				}
			}
			ch = w.rawChan(ri)
		}
		// one channel is either a queue or not, under every spelling of its name
		k := strings.TrimSuffix(strings.TrimSuffix(ch.name, " queue=true"), " queue=false")
		if have[k] {
			continue
		}
		have[k] = true
		w.chans = append(w.chans, ch)
		if mixed && ch.other != nil && tw.n(2) == 0 {
			// or both
			o := ch.other()
			ch.twin, o.twin = o, ch
			w.chans = append(w.chans, o)
		}
	}
	w.foreigners = e.focus == 18 || e.p(1, 4)
	modes := []int{rdPrompt, rdPrompt}
	if e.p(1, 2) {
		modes = append(modes, rdSlow, rdStall)
	}
	if e.p(1, 3) {
		modes = append(modes, rdStall, rdNever, rdAbandon)
	}
	mode := func() int { return modes[W(len(modes))] }
	chn := func() *psChan { return w.chans[W(len(w.chans))] }

	openNow := func() *psSub { return w.open(chn(), node(), sizes(), mode()) }
	nSub := e.between(1, 6)
	for i := 0; i < nSub; i++ {
		openNow()
	}
	w.settle()
	pubDone := newGroup()
	nPub := e.between(1, 3)
	perPub := e.between(3, 25)
	if e.p(1, 6) {
		perPub = e.between(25, 250)
	}
	gap := cpick(e.cfgRng, 0, 0, 2, 20, 150)
	for i := 0; i < nPub; i++ {
		p := &psPub{id: i + 1, node: node()}
		w.pubs = append(w.pubs, p)
		pubDone.Go(p.node, func() {
			for k := 0; k < perPub && !w.stop; k++ {
				w.publish(p, chn())
				if gap > 0 {
					sleep(time.Duration(W(gap)) * ms)
				} else if WP(1, 10) {
					sleep(time.Duration(W(2000)) * time.Microsecond)
				}
			}
		})
	}
	churn := newGroup()
	nChurn := e.n(4)
	for i := 0; i < nChurn; i++ {
		churn.Go(0, func() {
			for k := e.n(8); k > 0 && !w.stop; k-- {
				sleep(time.Duration(W(100)) * ms / time.Duration(1+W(20)))
				if WP(1, 6) {
					// several at once on one channel of one node
					c, n := chn(), node()
					count("event:subscription_burst")
					b := newGroup()
					for j := 2 + W(3); j > 0; j-- {
						b.Go(0, func() {
							s := w.open(c, n, sizes(), mode())
							if WP(1, 2) {
								p := &psPub{id: len(w.pubs) + 1, node: n}
								w.pubs = append(w.pubs, p)
								pubDone.Go(n, func() { w.publish(p, c) })
							}
							if s.sub != nil && WP(1, 2) {
								s.close()
							}
						})
					}
					b.Wait(30 * time.Second)
					continue
				}
				if WP(1, 2) {
					openNow()
					continue
				}
				var open []*psSub
				for _, s := range w.subs {
					if s.sub != nil && !s.closing.ok() {
						open = append(open, s)
					}
				}
				if len(open) == 0 {
					continue
				}
				s := open[W(len(open))]
				if !s.ch.queue && fabric != fabricSim && WP(1, 6) {
					w.g.Go(0, s.cancelThenClose)
					continue
				}
				count("event:subscription_closed")
				if WP(1, 6) {
					w.g.Go(0, s.close) // twice at once
				}
				w.g.Go(0, s.close)
			}
		})
	}
	if c.pause || c.cut {
		churn.Go(0, func() {
			for k := e.between(1, 4); k > 0 && !w.stop; k-- {
				sleep(time.Duration(F(100)) * ms)
				n := w.nodes[F(len(w.nodes))]
				d := time.Duration(1+F(500)) * ms
				if c.cut && F(2) == 0 {
					count("fault:node_cut_off")
					w.net.cut[n] = true
					time.AfterFunc(d, func() { delete(w.net.cut, n) })
				} else if c.pause {
					count("fault:node_paused")
					w.paused[n] += d
					runtime.VerifPauseNode(n, int64(d))
				}
			}
		})
	}
	if fabric == fabricRedis {
		churn.Go(0, func() { w.redis.chaos(e) })
	}
	if fabric == fabricNats {
		churn.Go(0, func() { w.nats.chaos(e) })
	}
	done := pubDone.Wait(30 * time.Second)
	churn.Wait(30 * time.Second)
	if !done {
		// some publisher waits for a subscriber that does not read
		for _, s := range append([]*psSub(nil), w.subs...) {
			if s.sub != nil && s.mode >= rdNever && !s.closing.ok() {
				w.g.Go(0, s.close)
			}
		}
		if !pubDone.Wait(60 * time.Second) {
			bad(w.props()+" P23", "publish-hangs", "a publisher still waits after every stalled subscriber was closed")
		}
	}
	w.stop = true
	w.heal()
	w.settle()
	w.closeStalled()
	if w.redis != nil {
		w.redis.healed()
	}
	if w.nats != nil {
		w.nats.healed()
	}
	w.probePS()
	sleep(psSettled)
	for i := 0; i < 100 && now()-w.lastGot() < 2*time.Second; i++ {
		sleep(500 * ms)
	}
	final := mark()
	closer := newGroup()
	for _, s := range append([]*psSub(nil), w.subs...) {
		if s.sub != nil && !s.closing.ok() {
			closer.Go(0, s.close)
		}
	}
	for _, st := range stubs {
		closer.Go(0, st.cli.Close)
		closer.Go(0, st.cli2.Close)
		closer.Go(0, st.srv.Shutdown)
		closer.Go(0, st.srv2.Shutdown)
	}
	checked("P23")
	if !closer.Wait(20 * time.Second) {
		bad(w.props()+" P23", "close-hangs", "closing every subscription has not finished after 20s")
	}
	sleep(psSettled)
	for _, s := range w.subs {
		if s.sub != nil && !s.ended.ok() && !s.abandoned {
			bad(w.props()+" P15", "never-ended", "%s: closed, but its channel is still open", s)
		}
	}
	if useStubs {
		w.useClosed()
	}
	w.checkDelivery(final)
	if w.nats != nil {
		w.nats.checkClosed()
	}
	if w.redis != nil {
		w.redis.checkOrder()
		w.redis.converge("after every subscription was closed", 5*time.Second)
	}
	w.checkReleased()
	countN("publications", len(w.all))
	countN("subscriptions", len(w.subs))
}

// useClosed: a closed client subscribes nothing any more.
func (w *psWorld) useClosed() {
	for _, c := range w.chans {
		n := w.nodes[W(len(w.nodes))]
		var s psSubscription
		var err error
		asNode(n, func() { s, err = c.sub(context.Background(), n, 1) })
		checked("P14")
		if !errors.Is(err, psrpc.ErrClientClosed) {
			bad("P14", "closed-client-used", "subscribing %s with a closed client of node%d reports %v", c.name, n, err)
		}
		if s != nil && err == nil {
			asNode(n, func() { s.Close() })
		}
	}
}

// lastGot is when a subscription last received a message, or asked for one.
func (w *psWorld) lastGot() (t time.Duration) {
	if w.redis != nil {
		t = w.redis.lastClaim
	}
	for _, s := range w.subs {
		if l := len(s.gotAt); l > 0 && s.gotAt[l-1].t > t {
			t = s.gotAt[l-1].t
		}
	}
	return
}

func (w *psWorld) settle() {
	switch w.fabric {
	case fabricSim:
		sleep(200 * ms)
	case fabricRedis, fabricNats:
		sleep(1500 * ms)
	}
}

// closeStalled closes the subscriptions that do not read.
func (w *psWorld) closeStalled() {
	g := newGroup()
	for _, c := range w.chans {
		for _, s := range c.subs {
			if s.mode >= rdNever && s.sub != nil && !s.closing.ok() {
				g.Go(0, s.close)
			}
		}
	}
	if !g.Wait(10 * time.Second) {
		bad(w.props()+" P23", "close-hangs", "closing subscriptions that do not read has not finished after 10s")
	}
}

// probePS: after all trouble, every channel delivers again.
func (w *psWorld) probePS() {
	p := &psPub{id: len(w.pubs) + 1, node: w.nodes[0]}
	for _, c := range w.chans {
		w.open(c, w.nodes[len(w.nodes)-1], 100, rdPrompt)
	}
	w.settle()
	g := newGroup()
	for _, c := range w.chans {
		if c.twin != nil && c.queue {
			continue // is published to with the other one
		}
		g.Go(p.node, func() {
			m := w.publish(p, c)
			_ = m
		})
	}
	if !g.Wait(10 * time.Second) {
		bad(w.props()+" P23", "publish-hangs", "publishing does not work any more")
	}
}

// isOpenOver: the subscription was open, and read, during all of m's way.
func (s *psSub) openSince(m *psMsg) bool {
	return s.err == nil && s.ready.ok() && s.ready.seq < m.start.seq
}

func (w *psWorld) checkDelivery(final stamp) {
	for _, c := range w.chans {
		for _, s := range c.subs {
			// order
			last, lastOpen := map[*psPub]*psMsg{}, map[*psPub]*psMsg{}
			for i, m := range s.got {
				c.checked()
				if l := last[m.pub]; l != nil && l.idx > m.idx && !w.reordering() {
					bad(c.props(), "reordered", "%s received %d after %d, which the same publisher published later", s, m.id, l.id)
				}
				last[m.pub] = m
				if !s.closing.ok() || s.gotAt[i].seq < s.closing.seq {
					lastOpen[m.pub] = m
				}
			}
			if c.queue || s.err != nil || s.cancelled {
				continue
			}
			// completeness
			has := map[*psMsg]int{}
			for _, m := range s.got {
				has[m]++
			}
			stays := s.closing.seq > final.seq || !s.closing.ok()
			for _, m := range c.msgs {
				if has[m] >= m.copies || !s.openSince(m) || m.err != nil || w.mayLose(m, s) {
					continue
				}
				c.checked()
				if stays {
					bad(c.props(), "lost", "%s was open from %v to the end and never received %d, published at %v", s, s.ready.t, m.id, m.start.t)
				} else if l := lastOpen[m.pub]; l != nil && l.idx > m.idx {
					bad(c.props(), "gap", "%s received %d but not %d, which the same publisher published before", s, l.id, m.id)
				}
			}
		}
		if !c.queue {
			continue
		}
		for _, m := range c.msgs {
			if m.err != nil || len(m.got) >= m.copies {
				continue
			}
			c.checked()
			stays, mayHold := false, false
			for _, s := range c.subs {
				if s.err != nil {
					continue
				}
				if (s.closing.seq > final.seq || !s.closing.ok()) && s.openSince(m) && !w.mayLose(m, s) {
					stays = true
				}
				if s.closing.ok() && s.closing.seq < final.seq && max(s.ended.seq, s.closed.seq) > m.start.seq && s.start.seq < w.lastWay(m) {
					mayHold = true
				}
			}
			if stays && w.nats != nil && w.nats.strayed(m) {
				badk("P21", "queue-strayed", keyStray, "message %d published to %s at %v was given to a process which does not subscribe to it", m.id, c.name, m.start.t)
				continue
			}
			if stays && !mayHold {
				bad(c.props(), "queue-lost", "message %d published to %s at %v was never received", m.id, c.name, m.start.t)
			}
		}
	}
}

// lastWay is the latest moment at which a message may have been handed to a subscription.
func (w *psWorld) lastWay(m *psMsg) uint64 {
	if w.fabric == fabricLocal {
		return m.end.seq
	}
	return ^uint64(0)
}

// reordering: the order of messages is judged by what the server saw.
func (w *psWorld) reordering() bool { return w.fabric == fabricRedis }

// mayRepeat: the faults of this run may have repeated this message.
func (w *psWorld) mayRepeat(m *psMsg) bool {
	return w.fabric == fabricRedis && w.redis.mayRepeat(m)
}

// mayLose: the faults of this run may have cost this message.
func (w *psWorld) mayLose(m *psMsg, s *psSub) bool {
	switch w.fabric {
	case fabricSim:
		return w.lossyPS && !w.healedAt(m)
	case fabricRedis:
		return w.redis.mayLose(m, s)
	case fabricNats:
		return w.nats.mayLose(m, s)
	}
	return false
}

func (w *psWorld) healedAt(m *psMsg) bool { return m.pub.id > len(w.pubs) }

// checkReleased: nothing of a closed subscription runs on (P15).
func (w *psWorld) checkReleased() {
	if w.fabric > fabricLocal {
		return
	}
	w.checkFabric()
	for _, n := range w.nodes {
		checked("P15")
		if k := runtime.VerifNodeGoroutines(n); k > 0 {
			bad("P15", "goroutines", "node%d runs %d goroutines with everything closed: %v", n, k, runtime.VerifNodeGoFuncs(n))
		}
		if l := w.net.openSubs(n); len(l) > 0 {
			bad("P15", "subscriptions", "node%d still subscribes %v", n, l)
		}
	}
}

// checkFabric: a bus nobody uses any more keeps nothing.
func (w *world) checkFabric() {
	if w.shared == nil {
		return
	}
	checked("P22")
	if n := busEntries(w.shared); n > 0 {
		bad("P22 P15", "bus-entries", "the local bus keeps %d entries after every subscription was closed", n)
	}
}

// obsBus lets the harness see what passes through a real bus.
type obsBus struct {
	n     *simnet
	node  uint32
	inner bus.MessageBus
}

func (b *obsBus) Publish(ctx context.Context, ch bus.Channel, msg proto.Message) error {
	b.n.nPub++
	p := &pub{id: b.n.nPub, node: b.node, ch: ch, key: ch.Legacy, msg: proto.Clone(msg), at: mark()}
	if b.n.onPublish != nil {
		b.n.onPublish(p)
	}
	logf("pub#%d node%d %q %T", p.id, p.node, p.key, msg)
	err := b.inner.Publish(ctx, ch, msg)
	if idleSince(p.at, mark()) > 0 {
		if !b.n.congested {
			count("congested_runs")
		}
		b.n.congested = true
	}
	if err != nil && b.n.onRefused != nil {
		b.n.onRefused(p)
	}
	return err
}

func (b *obsBus) Subscribe(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	r, err := b.inner.Subscribe(ctx, ch, size)
	return b.wrap(r, err, ch)
}

func (b *obsBus) SubscribeQueue(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	r, err := b.inner.SubscribeQueue(ctx, ch, size)
	return b.wrap(r, err, ch)
}

func (b *obsBus) wrap(r bus.Reader, err error, ch bus.Channel) (bus.Reader, error) {
	if err != nil {
		return nil, err
	}
	s := &simSub{n: b.n, id: len(b.n.order) + 1, node: b.node, key: ch.Legacy, ch: ch, isOpen: true, opened: mark()}
	b.n.order = append(b.n.order, s)
	return &bus.VerifReader{
		ReadFunc: func() ([]byte, bool) {
			raw, ok := bus.VerifRead(r)
			if ok && b.n.onDeliver != nil {
				var a anypb.Any
				opt := proto.UnmarshalOptions{DiscardUnknown: true}
				if opt.Unmarshal(raw, &a) == nil {
					if m, err := a.UnmarshalNew(); err == nil {
						b.n.onDeliver(s, &pub{key: s.key, msg: m, raw: raw})
					}
				}
			}
			return raw, ok
		},
		CloseFunc: func() error {
			s.isOpen = false
			return r.Close()
		},
	}, nil
}
