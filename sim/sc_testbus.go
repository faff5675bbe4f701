package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"runtime"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/verifsim/simpb"
	"github.com/livekit/psrpc/pkg/info"
	"github.com/livekit/psrpc/testutils"
)

func init() {
	scenario(16, "pubsub through the latency and loss test buses", runTestBus)
}

// tbRead is one message that passed a point of a subscription's way up.
type tbRead struct {
	asked, at stamp
	b         []byte
	ok        bool
	used      int // by the layer above
}

// tbTap is such a point.
type tbTap struct {
	reads []*tbRead
	ended stamp
}

func (t *tbTap) wrap(next testutils.ReadHandler) testutils.ReadHandler {
	return func() ([]byte, bool) {
		r := &tbRead{asked: mark()}
		b, ok := next()
		r.b, r.ok, r.at = bytes.Clone(b), ok, mark()
		if ok {
			t.reads = append(t.reads, r)
		} else if !t.ended.ok() {
			t.ended = r.at
		}
		return b, ok
	}
}

// decided is when a message read at i has been dealt with by the layer above:
// no later than it asks for the next one.
func (t *tbTap) decided(i int) stamp {
	if i+1 < len(t.reads) {
		return t.reads[i+1].asked
	}
	return stamp{t: math.MaxInt64, seq: math.MaxUint64}
}

// tbLayer is one of the test buses a bus is wrapped in.
type tbLayer struct {
	laggy  bool
	rate   testutils.AtomicFailureRate
	rates  []tbRate
	filter string
}

type tbRate struct {
	from stamp
	v    float64
}

type tbBus struct {
	w      *tbWorld
	node   uint32
	id     string
	under  *tbUnder
	bus    psrpc.MessageBus
	layers []*tbLayer // outermost first
	open   *tbSub     // whose taps are being made
}

// tbUnder is the bus below, observed.
type tbUnder struct {
	b     *tbBus
	inner psrpc.MessageBus
}

type tbPub struct {
	id         uint64
	ch         int
	u          *simpb.Upd
	b          *tbBus
	start, end stamp
	under      int
	underErr   error
	err        error
	seen       int
}

type tbSub struct {
	id           int
	b            *tbBus
	ch           int
	size         int
	slow         bool
	base         *tbTap   // the reader below
	taps         []*tbTap // taps[0] outermost; taps[i+1] below layers[i]
	sub          bus.Subscription[*simpb.Upd]
	start, ready stamp
	closing      stamp
	closed       stamp
	ended        stamp
	got          []uint64
	gotAt        []stamp
}

func (s *tbSub) String() string { return fmt.Sprintf("sub-%d on channel %d of %s", s.id, s.ch, s.b.id) }

type tbLat struct {
	from stamp
	v    time.Duration
}

type tbWorld struct {
	*world
	buses []*tbBus
	chans []bus.Channel
	queue []bool
	subs  []*tbSub
	pubs  map[uint64]*tbPub
	lat   map[string][]tbLat // origin/id
	laggy bool
	g     *group
	stop  bool
}

func (w *tbWorld) latency(a, b string) time.Duration {
	l := w.lat[a+"/"+b]
	count("event:latency_asked")
	return l[len(l)-1].v
}

func (w *tbWorld) setLat(a, b string, v time.Duration) {
	w.lat[a+"/"+b] = append(w.lat[a+"/"+b], tbLat{mark(), v})
	logf("latency %s to %s is %v", a, b, v)
}

// latIn is the range of latencies configured between two moments.
func (w *tbWorld) latIn(a, b string, from, to stamp) (lo, hi time.Duration) {
	lo = math.MaxInt64
	l := w.lat[a+"/"+b]
	for i, x := range l {
		if x.from.seq > to.seq || i+1 < len(l) && l[i+1].from.seq < from.seq {
			continue
		}
		lo, hi = min(lo, x.v), max(hi, x.v)
	}
	return
}

func (l *tbLayer) set(v float64) {
	l.rate.SetRate(v)
	l.rates = append(l.rates, tbRate{mark(), v})
	logf("rate %v", v)
}

func (l *tbLayer) rateIn(from, to stamp) (lo, hi float64) {
	lo, hi = 1, 0
	for i, x := range l.rates {
		if x.from.seq > to.seq || i+1 < len(l.rates) && l.rates[i+1].from.seq < from.seq {
			continue
		}
		lo, hi = min(lo, x.v), max(hi, x.v)
	}
	return
}

func (u *tbUnder) Publish(ctx context.Context, ch bus.Channel, msg proto.Message) error {
	w := u.b.w
	m := msg
	if w.laggy {
		lm, ok := msg.(*testutils.LaggyMessage)
		if !ok {
			bad("P24", "publish-altered", "%s publishes %v below the latency bus", u.b.id, msg)
			return u.inner.Publish(ctx, ch, msg)
		}
		var a anypb.Any
		if err := proto.Unmarshal(lm.Body, &a); err == nil {
			m, _ = a.UnmarshalNew()
		}
		if lm.Origin != u.b.id {
			bad("P24", "publish-altered", "%s publishes with origin %q", u.b.id, lm.Origin)
		}
		if d := now() - time.Duration(lm.SentAt-t0); d < 0 || d > 2*time.Second {
			bad("P24", "publish-altered", "%s publishes as sent %v ago", u.b.id, d)
		}
	}
	upd, _ := m.(*simpb.Upd)
	p := w.pubs[upd.GetId()]
	checked("P24")
	if p == nil || !proto.Equal(p.u, upd) || p.b != u.b || ch != w.chans[p.ch] {
		bad("P24", "publish-altered", "%s publishes %v to %v below the test bus", u.b.id, msg, ch)
		return u.inner.Publish(ctx, ch, msg)
	}
	p.under++
	err := u.inner.Publish(ctx, ch, msg)
	p.underErr = err
	return err
}

func (u *tbUnder) Subscribe(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	r, err := u.inner.Subscribe(ctx, ch, size)
	return u.wrap(r, err, ch, false, size)
}

func (u *tbUnder) SubscribeQueue(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	r, err := u.inner.SubscribeQueue(ctx, ch, size)
	return u.wrap(r, err, ch, true, size)
}

func (u *tbUnder) wrap(r bus.Reader, err error, ch bus.Channel, queue bool, size int) (bus.Reader, error) {
	s := u.b.open
	if ch != u.b.w.chans[s.ch] || queue != u.b.w.queue[s.ch] || size != s.size {
		bad("P24", "subscribe-altered", "%s subscribes %v queue=%v size=%d below the test bus", s, ch, queue, size)
	}
	if err != nil {
		return nil, err
	}
	s.base = &tbTap{}
	return &bus.VerifReader{
		ReadFunc:  s.base.wrap(func() ([]byte, bool) { return bus.VerifRead(r) }),
		CloseFunc: r.Close,
	}, nil
}

// tap is an interceptor that only watches.
func (b *tbBus) tap() testutils.TestBusOption {
	return testutils.WithSubscribeInterceptor(func(ctx context.Context, ch testutils.Channel, next testutils.ReadHandler) testutils.ReadHandler {
		t := &tbTap{}
		// they are made from the innermost out
		b.open.taps = append([]*tbTap{t}, b.open.taps...)
		return t.wrap(next)
	})
}

func (w *tbWorld) newBus(e *env, id string, inner psrpc.MessageBus, node uint32) *tbBus {
	b := &tbBus{w: w, node: node, id: id}
	b.under = &tbUnder{b, inner}
	if w.laggy {
		b.layers = append(b.layers, &tbLayer{laggy: true})
	}
	for i := e.n(3); i > 0; i-- {
		l := &tbLayer{rate: testutils.NewAtomicFailureRate(0)}
		l.set(cpick(e.cfgRng, 0, 1, 0.1, 0.5, 0.9, 0))
		if e.p(1, 3) {
			l.filter = w.chans[e.n(len(w.chans))].Legacy
		}
		if e.p(1, 2) {
			b.layers = append(b.layers, l)
		} else {
			b.layers = append([]*tbLayer{l}, b.layers...)
		}
	}
	opts := []testutils.TestBusOption{b.tap()}
	for _, l := range b.layers {
		var o testutils.TestBusOption
		switch {
		case l.laggy:
			o = testutils.WithLaggyBus(id, w.latency)
		case l.filter != "":
			o = testutils.WithUnreliableBusChannel(l.rate, l.filter)
		default:
			o = testutils.WithUnreliableBus(l.rate)
		}
		if e.p(1, 3) {
			o = testutils.WithBusOptions(o, b.tap())
		} else {
			opts = append(opts, o)
			o = b.tap()
		}
		opts = append(opts, o)
	}
	b.bus = testutils.NewTestBus(b.under, opts...)
	return b
}

func (w *tbWorld) open(b *tbBus, ch, size int, slow bool) {
	s := &tbSub{id: len(w.subs) + 1, b: b, ch: ch, size: size, slow: slow}
	w.subs = append(w.subs, s)
	b.open = s
	o := runtime.VerifSetNode(b.node)
	s.start = mark()
	fail := w.net.subErr != nil && FP(1, 8)
	if fail {
		w.net.subErr = func(uint32, string) bool { return true }
	}
	var err error
	if w.queue[ch] {
		s.sub, err = bus.SubscribeQueue[*simpb.Upd](context.Background(), b.bus, w.chans[ch], size)
	} else {
		s.sub, err = bus.Subscribe[*simpb.Upd](context.Background(), b.bus, w.chans[ch], size)
	}
	if fail {
		w.net.subErr = func(uint32, string) bool { return false }
	}
	s.ready = mark()
	runtime.VerifSetNode(o)
	b.open = nil
	logf("%s opens size=%d slow=%v: %v", s, size, slow, err)
	checked("P24")
	if err != nil {
		s.sub, s.closing, s.closed, s.ended = nil, s.ready, s.ready, s.ready
		if !fail || !errors.Is(err, errSimSubscribe) {
			bad("P24", "subscribe-failed", "%s: %v", s, err)
		}
		return
	}
	if fail {
		bad("P24", "failure-swallowed", "%s: the bus refused it, the test bus did not", s)
		return
	}
	if s.base == nil || len(s.taps) != len(b.layers)+1 {
		bad("P24", "interceptors", "%s runs %d of %d subscribe interceptors", s, len(s.taps), len(b.layers)+1)
		return
	}
	w.g.Go(b.node, func() {
		for {
			u, ok := <-s.sub.Channel()
			if !ok {
				break
			}
			s.got, s.gotAt = append(s.got, u.GetId()), append(s.gotAt, mark())
			logf("%s receives %d", s, u.GetId())
			p := w.pubs[u.GetId()]
			if p == nil || p.ch != s.ch || !proto.Equal(p.u, u) {
				bad("P24", "altered", "%s received %v", s, u)
			}
			if s.slow && !w.stop {
				sleep(time.Duration(W(60)) * ms)
			}
		}
		s.ended = mark()
		logf("%s ended", s)
		if !s.closing.ok() {
			bad("P24", "ended-unasked", "%s: ended although nobody closed it", s)
		}
	})
}

func (s *tbSub) close() {
	s.closing = mark()
	logf("%s closing", s)
	asNode(s.b.node, func() { s.sub.Close() })
	s.closed = mark()
	if d := idleSince(s.closing, s.closed); d > eps {
		bad("P24 P23", "close-late", "%s: closing took %v", s, d)
	}
}

func runTestBus(e *env) {
	w := &tbWorld{world: newWorld(e.network(chaosPlan{quiet: true})), pubs: map[uint64]*tbPub{}, lat: map[string][]tbLat{}, g: newGroup()}
	n := w.net
	if e.p(1, 3) {
		n.spikeDen, n.spikeMax = cpick(e.cfgRng, 3, 10), cpick(e.cfgRng, 20*ms, 300*ms)
	}
	pubErr := e.p(1, 4)
	if pubErr {
		n.pubErrDen = cpick(e.cfgRng, 5, 20)
	}
	if e.p(1, 4) {
		n.subErr = func(uint32, string) bool { return false }
	}
	local := e.p(1, 3)
	var shared psrpc.MessageBus
	if local {
		shared = psrpc.NewLocalMessageBus()
		n.subErr = nil
	}
	w.laggy = e.p(3, 4)
	for i := e.between(1, 3); i > 0; i-- {
		ri := &info.RequestInfo{RPCInfo: psrpc.RPCInfo{Service: "S", Method: fmt.Sprintf("M%d", i)}}
		ri.Queue = e.p(1, 4)
		if e.p(1, 2) {
			ri.Topic = []string{topicPool[e.n(len(topicPool))]}
		}
		w.chans, w.queue = append(w.chans, ri.GetRPCChannel()), append(w.queue, ri.Queue)
	}
	nBus := e.between(1, 3)
	ids := []string{"a", "b", "c"}
	if e.p(1, 6) {
		ids = []string{"a", "a", ""}
	}
	lats := []time.Duration{0, ms, 10 * ms, 100 * ms, time.Second}
	newLat := func(r func(int) int) time.Duration {
		if r(5) == 0 {
			return time.Duration(r(50_000_000))
		}
		return lats[r(len(lats))]
	}
	for i := 0; i < nBus; i++ {
		for j := 0; j < nBus; j++ {
			w.setLat(ids[i], ids[j], newLat(e.n))
		}
	}
	for i := 0; i < nBus; i++ {
		node := w.node()
		inner := shared
		if inner == nil {
			inner = n.conn(node)
		}
		w.buses = append(w.buses, w.newBus(e, ids[i], inner, node))
	}
	anyBus := func() *tbBus { return w.buses[W(nBus)] }
	sizes := func() int { return pick(100, 1, 2, 5, 0) }
	slowSubs := e.p(1, 3)
	openNow := func() { w.open(anyBus(), W(len(w.chans)), sizes(), slowSubs && W(3) == 2) }
	for i := e.between(1, 5); i > 0; i-- {
		openNow()
	}
	var ops *group = newGroup()
	perPub := e.between(3, 25)
	if e.p(1, 5) {
		perPub = e.between(25, 150)
	}
	gap := cpick(e.cfgRng, 0, 0, 2, 20, 150)
	for i := e.between(1, 3); i > 0; i-- {
		b := anyBus()
		ops.Go(b.node, func() {
			for k := 0; k < perPub; k++ {
				w.publish(b)
				if gap > 0 {
					sleep(time.Duration(W(gap)) * ms)
				} else if WP(1, 10) {
					sleep(time.Duration(W(2000)) * time.Microsecond)
				}
			}
		})
	}
	churn := e.n(12)
	ops.Go(0, func() {
		for k := 0; k < churn; k++ {
			sleep(time.Duration(W(200)) * ms / time.Duration(1+W(20)))
			switch W(4) {
			case 0:
				openNow()
			case 1:
				s := w.subs[W(len(w.subs))]
				if s.sub != nil && !s.closing.ok() {
					count("event:subscription_closed")
					s.close()
				}
			case 2:
				if w.laggy {
					count("fault:latency_changed")
					w.setLat(ids[W(nBus)], ids[W(nBus)], newLat(W))
				}
			case 3:
				b := anyBus()
				for _, l := range b.layers {
					if !l.laggy && W(2) == 0 {
						count("fault:loss_rate_changed")
						l.set(pick(0, 1, 0.5))
					}
				}
			}
		}
	})
	if !ops.Wait(60 * time.Second) {
		bad("P24 P23", "hangs", "publishing and subscribing have not finished after 60s")
		return
	}
	w.stop = true
	sleep(5 * time.Second)
	for _, s := range w.subs {
		if s.sub != nil && !s.closing.ok() {
			s.close()
		}
	}
	sleep(3 * time.Second)
	final := mark()
	for _, s := range w.subs {
		if s.sub != nil {
			w.checkSub(s, final)
		}
	}
	for _, b := range w.buses {
		checked("P15")
		if k := runtime.VerifNodeGoroutines(b.node); k > 0 {
			bad("P24 P15", "goroutines", "%s runs %d goroutines with everything closed: %v", b.id, k, runtime.VerifNodeGoFuncs(b.node))
		}
		if l := n.openSubs(b.node); len(l) > 0 {
			bad("P24 P15", "subscriptions", "%s still subscribes %v", b.id, l)
		}
	}
	countN("publications", len(w.pubs))
	countN("subscriptions", len(w.subs))
}

func (w *tbWorld) publish(b *tbBus) {
	p := &tbPub{id: w.id(), ch: W(len(w.chans)), b: b}
	p.u = &simpb.Upd{Id: p.id, Pub: b.id}
	if WP(1, 4) {
		p.u.Blob = []byte(fmt.Sprintf("blob of %d", p.id))
	}
	w.pubs[p.id] = p
	p.start = mark()
	p.err = b.bus.Publish(context.Background(), w.chans[p.ch], p.u)
	p.end = mark()
	logf("%s publishes %d to channel %d: %v", b.id, p.id, p.ch, p.err)
	checked("P24")
	if p.err != p.underErr {
		bad("P24", "publish-result", "publishing %d reports %v, the bus below said %v", p.id, p.err, p.underErr)
	}
	if p.under != 1 {
		bad("P24", "publish-count", "publishing %d published it %d times below", p.id, p.under)
	}
}

// checkSub follows every message up, layer by layer.
func (w *tbWorld) checkSub(s *tbSub, final stamp) {
	if !s.ended.ok() {
		bad("P24 P15", "never-ended", "%s: closed, but its channel is still open", s)
		return
	}
	if d := idleSince(s.closing, s.ended); !s.slow && d > eps {
		bad("P24", "ended-late", "%s: ended %v after it was closed", s, d)
	}
	// the readers below the lowest layer
	inn := s.taps[len(s.taps)-1]
	if len(inn.reads) != len(s.base.reads) {
		bad("P24", "reads", "%s: %d messages were read, %d arrived above the bus", s, len(s.base.reads), len(inn.reads))
		return
	}
	for i, l := range s.b.layers {
		in, out := s.taps[i+1], s.taps[i]
		if l.laggy {
			w.checkLaggy(s, in, out)
		} else {
			w.checkLossy(s, l, in, out)
		}
	}
	// and the outermost one to the channel
	out := s.taps[0]
	for i, r := range out.reads {
		var m internal.Msg
		var u simpb.Upd
		if proto.Unmarshal(r.b, &m) != nil || proto.Unmarshal(m.Value, &u) != nil {
			bad("P24", "altered", "%s: message %d is not one any more", s, i)
			return
		}
		if i < len(s.got) && s.got[i] != u.Id {
			bad("P24", "altered", "%s received %d, the test bus yielded %d", s, s.got[i], u.Id)
			return
		}
	}
	if len(s.got) > len(out.reads) {
		bad("P24", "duplicate", "%s received %d messages, the test bus yielded %d", s, len(s.got), len(out.reads))
	}
}

func (w *tbWorld) checkLaggy(s *tbSub, in, out *tbTap) {
	type due struct {
		lo, hi time.Duration
		lm     testutils.LaggyMessage
	}
	dues := make([]due, len(in.reads))
	byBody := map[string][]int{}
	for i, r := range in.reads {
		var a anypb.Any
		d := &dues[i]
		if proto.Unmarshal(r.b, &a) != nil || a.UnmarshalTo(&d.lm) != nil {
			bad("P24", "altered", "%s: what arrives is not a message of the latency bus", s)
			return
		}
		lo, hi := w.latIn(d.lm.Origin, s.b.id, r.at, in.decided(i))
		at := time.Duration(d.lm.SentAt - t0)
		d.lo, d.hi = at+lo, at+hi
		byBody[string(d.lm.Body)] = append(byBody[string(d.lm.Body)], i)
	}
	for k, r := range out.reads {
		checked("P24")
		l := byBody[string(r.b)]
		if len(l) == 0 {
			bad("P24", "altered", "%s: the latency bus yields what it was never given, or for the second time", s)
			continue
		}
		i := l[0]
		byBody[string(r.b)] = l[1:]
		x, d := in.reads[i], dues[i]
		x.used++
		if r.at.t < d.lo {
			bad("P24", "too-early", "%s: a message sent at %v by %s was yielded at %v, %v before its latency had passed", s, time.Duration(d.lm.SentAt-t0), d.lm.Origin, r.at.t, d.lo-r.at.t)
		}
		// while it was due, nobody may have waited for a message in vain
		from := max(d.hi, x.at.t)
		late := time.Duration(0)
		for j := k; j >= 0 && out.reads[j].at.t > from; j-- {
			y := out.reads[j]
			since := max(y.asked.t, from)
			ref := y.asked
			if x.at.seq > ref.seq {
				ref = x.at
			}
			late += max(0, y.at.t-since-(y.at.busy-ref.busy))
		}
		if late > eps {
			bad("P24", "too-late", "%s: a message due at %v was yielded at %v", s, from, r.at.t)
		}
	}
	for i, x := range in.reads {
		// what is on its way when the subscription closes need not arrive
		if x.used > 0 || !idle(out, max(dues[i].hi, x.at.t)+500*ms, s) {
			continue
		}
		bad("P24", "lost", "%s: a message sent at %v by %s, due at %v, was never yielded (closed at %v)", s, time.Duration(dues[i].lm.SentAt-t0), dues[i].lm.Origin, dues[i].hi, s.closing.t)
	}
}

// idle: at this moment the subscription was open and everything yielded had been taken.
func idle(out *tbTap, t time.Duration, s *tbSub) bool {
	if s.closing.t < t {
		return false
	}
	if len(s.got) < len(out.reads) {
		return false
	}
	// still taking, or asleep
	for _, at := range s.gotAt {
		if at.t > t-200*ms && at.t < s.closing.t {
			t = at.t + 500*ms
		}
	}
	return t < s.closing.t
}

func (w *tbWorld) checkLossy(s *tbSub, l *tbLayer, in, out *tbTap) {
	skip := l.filter != "" && l.filter != w.chans[s.ch].Legacy
	// an in-order subsequence
	k := 0
	constant := 0.0
	same, first := true, true
	drop := 0
	for i, r := range in.reads {
		lo, hi := l.rateIn(r.at, in.decided(i))
		if skip {
			lo, hi = 0, 0
		}
		if first {
			constant, first = lo, false
		}
		same = same && lo == constant && hi == constant
		checked("P24")
		passed := k < len(out.reads) && bytes.Equal(out.reads[k].b, r.b)
		if passed && out.reads[k].at.seq < r.at.seq {
			passed = false
		}
		switch {
		case passed && lo >= 1:
			bad("P24", "not-dropped", "%s: a message was yielded although all are to be lost", s)
			return
		case !passed && hi <= 0:
			bad("P24", "dropped", "%s: message %d was dropped, which the loss bus must pass on (skip=%v)", s, i, skip)
			return
		}
		if passed {
			if d := out.reads[k].at.t - r.at.t - (out.reads[k].at.busy - r.at.busy); d > eps {
				bad("P24", "delayed", "%s: the loss bus held up a message for %v", s, d)
			}
			k++
			r.used++
		} else {
			drop++
		}
	}
	if k != len(out.reads) {
		bad("P24", "altered", "%s: of %d messages the loss bus yields, %d are in order among the %d it read", s, len(out.reads), k, len(in.reads))
		return
	}
	if n := float64(len(in.reads)); same && n >= 20 {
		want, sd := n*constant, math.Sqrt(n*constant*(1-constant))
		if d := math.Abs(float64(drop) - want); d > 6*sd+1 {
			bad("P24", "wrong-rate", "%s: %d of %d messages were dropped at rate %v", s, drop, len(in.reads), constant)
		}
	}
}
