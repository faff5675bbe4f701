package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"

	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/verifsim/simpb"
	"github.com/livekit/psrpc/pkg/metadata"
)

// world is one simulated deployment: servers, clients, the network between
// them, and everything that was observed about it.
type world struct {
	net     *simnet
	servers []*snode
	clients []*cnode
	ops     map[uint64]*callOp
	byReq   map[string]*callOp // psrpc request id
	opList  []*callOp
	nextID  uint64
	nextNod uint32

	naming  naming
	mds     []mdCtx
	svcOpts []psrpc.ServerOption
	cliOpts []psrpc.ClientOption

	// what may have happened in this run, for oracles that need a quiet one
	lossy   bool // messages may get lost, publishes fail, nodes are cut off or crash
	skewed  bool // some server's clock is off
	paused  map[uint32]time.Duration
	slowCli bool // some caller of the run does not drain its multi responses

	msgs    map[uint64]*strMsg
	srvTO   time.Duration
	srvSize int
	healed  bool
	two     bool                 // a second service with the same method names is in use
	late    []context.CancelFunc // callers' contexts which outlive the calls
	upsets  *[]*upsetOp
	streams *group // those in progress
	rush    bool   // messages of streams come one after the other, and streams end in the midst of them
	fabric  int
	shared  bus.MessageBus // the bus all nodes share, on the local fabric
	inner   func(node uint32) bus.MessageBus
	redisF  *redisFabric
	natsF   *natsFabric
	spread  time.Duration // how long the server may take to learn of a subscription
	rough   bool          // connections to the server suffer
	mw      *mw           // middleware in use
	recent  []delivery    // arrived lately
}

// conn is the bus as the node's clients and servers get it.
func (w *world) conn(node uint32) bus.MessageBus {
	if w.fabric == fabricSim {
		return w.net.conn(node)
	}
	return &obsBus{w.net, node, w.inner(node)}
}

// useFabric makes the world run over a real bus implementation.
func (w *world) useFabric(e *env, fabric int) {
	w.fabric = fabric
	switch fabric {
	case fabricLocal:
		w.shared = bus.NewLocalMessageBus()
		w.inner = func(uint32) bus.MessageBus { return w.shared }
	case fabricRedis:
		w.redisF = newRedisNet(e)
		w.redisF.calls = w
		w.inner = func(n uint32) bus.MessageBus { return w.redisF.newBus(n, busNode+n) }
	case fabricNats:
		w.natsF = newNatsNet(e)
		w.natsF.calls = w
		w.inner = func(n uint32) bus.MessageBus { return w.natsF.newBus(n, busNode+n) }
	}
	if t := w.tcp(); t != nil {
		w.rough = e.p(1, 2)
		if w.rough && e.p(1, 3) {
			t.spikeDen, t.spikeMax = cpick(e.cfgRng, 5, 20), cpick(e.cfgRng, 50*ms, 500*ms)
		}
		w.lossy = w.rough
		// command and push, with the connecting that a command may need, and a lock
		w.net.latMax = 10*t.latMax + ms
		w.spread = 12*t.latMax + 5*ms
	}
}

// busNode is what the nodes of the bus clients' own goroutines start from.
const busNode = 1000

// spreadOut waits until the server has learnt of subscriptions.
func (w *world) spreadOut() {
	for m := mark(); idleSince(m, mark()) < w.spread; {
		sleep(w.spread)
	}
}

// tcp is the network below a fabric which has a server.
func (w *world) tcp() *tcpNet {
	switch {
	case w.redisF != nil:
		return w.redisF.t
	case w.natsF != nil:
		return w.natsF.t
	}
	return nil
}

// Findings about the libraries below a bus, by which they are recognised.
const (
	keyTwice  = "the Redis client published it twice"
	keyLagged = "the Redis lock on it had expired"
	keyWiped  = "the Redis server had lost its locks"
	keyNats   = "the NATS client was connecting"
	keyStray  = "a process with no subscription of the method got a message of its queue"
)

// republished notes that the server executed a publish for a second time.
func (w *world) republished(payload []byte) {
	switch m := decodeMsg(payload).(type) {
	case *internal.Stream:
		var u simpb.CMsg
		if b := m.GetMessage(); b != nil && proto.Unmarshal(b.RawMessage, &u) == nil {
			if x := w.msgs[u.Id]; x != nil {
				x.again = true
			}
		}
		w.again(m.RequestId)
	case interface{ GetRequestId() string }:
		w.again(m.GetRequestId())
	}
}

func (w *world) again(req string) {
	if op := w.byReq[req]; op != nil {
		op.again = true
	}
}

// decodeMsg reads a message as a bus sends it.
func decodeMsg(payload []byte) proto.Message {
	var a anypb.Any
	if (proto.UnmarshalOptions{DiscardUnknown: true}).Unmarshal(payload, &a) != nil {
		return nil
	}
	m, err := a.UnmarshalNew()
	if err != nil {
		return nil
	}
	return m
}

// keyIf is the key of a finding if it applies.
func keyIf(on bool, key string) string {
	if on {
		return key
	}
	return ""
}

// twiceKey is the finding that may make a request run twice.
func (op *callOp) twiceKey() string {
	f := op.c.w.redisF
	if f == nil {
		return ""
	}
	if op.again {
		return keyTwice
	}
	if n := len(op.starts); n > 1 && isQueueMethod(op.method) && op.starts[n-1].at.t-op.pubs[0].t > 5*time.Second-5*ms {
		return keyLagged
	}
	for _, x := range f.wipes {
		if isQueueMethod(op.method) && len(op.pubs) > 0 && x >= op.pubs[0].t {
			return keyWiped
		}
	}
	return ""
}

// connecting: the NATS client of this node may have been busy connecting,
// and then keeps every publisher waiting.
func (w *world) connecting(node uint32, from stamp) bool {
	return w.natsF != nil && w.natsF.t.disturbed(node, from.t, now(), w.natsF.settleTime())
}

// roughen disturbs the connections to the server while the calls run.
func (w *world) roughen(stop *bool) {
	t := w.tcp()
	if t == nil || !w.rough {
		return
	}
	var nodes []uint32
	for n := uint32(1); n <= w.nextNod; n++ {
		nodes = append(nodes, n)
	}
	resume, restarted := func() {}, func() {}
	if w.redisF != nil {
		resume = w.redisF.resume
		restarted = func() {
			if F(2) == 0 {
				w.redisF.keys = map[string]redisKey{}
				w.redisF.wipes = append(w.redisF.wipes, now())
			}
		}
	} else {
		resume = w.natsF.resume
	}
	t.chaos(nodes, 1+F(5), func() bool { return *stop }, restarted, resume)
}

// calm waits until the bus clients have got over all trouble.
func (w *world) calm() {
	t := w.tcp()
	if t == nil {
		return
	}
	t.calm()
	t.spikeDen = 0
	if !w.rough {
		return
	}
	if w.redisF != nil {
		sleep(redisSettle)
	} else {
		sleep(w.natsF.settleTime())
	}
}

func newWorld(net *simnet) *world {
	w := &world{
		net: net, ops: map[uint64]*callOp{}, byReq: map[string]*callOp{}, paused: map[uint32]time.Duration{},
		msgs: map[uint64]*strMsg{}, srvTO: psrpc.DefaultServerTimeout, srvSize: bus.DefaultChannelSize,
	}
	net.onPublish = w.onPublish
	net.mangle = w.mangle
	net.onRefused = func(p *pub) {
		if m, ok := p.msg.(interface{ GetRequestId() string }); ok {
			if op := w.byReq[m.GetRequestId()]; op != nil {
				op.unsent = true
			}
		}
	}
	net.onDeliver = w.onDeliver
	return w
}

func (w *world) node() uint32 {
	w.nextNod++
	return w.nextNod
}

func (w *world) id() uint64 {
	w.nextID++
	return w.nextID
}

// ---- names -----------------------------------------------------------------

// naming is how the servers and clients of a run are called.
type naming int

const (
	namePlain  naming = iota
	nameNested        // each one's is a prefix of the next one's
	nameCase
	nameAuto // as the generated code calls them
)

func (w *world) drawNaming(e *env) {
	w.naming = cpick(e.cfgRng, namePlain, namePlain, nameNested, nameCase, nameAuto)
	if w.naming == nameAuto && w.two { // two services, two IDs
		w.naming = namePlain
	}
}

func (n naming) server(i int) string {
	switch n {
	case nameNested:
		return "server-1" + strings.Repeat("1", i)
	case nameCase:
		return caseName("serv", i)
	case nameAuto:
		return ""
	}
	return fmt.Sprintf("server-%d", i)
}

func (n naming) client(i int) string {
	switch n {
	case nameNested:
		return "client_1" + strings.Repeat("1", i)
	case nameCase:
		return caseName("clie", i)
	case nameAuto:
		return ""
	}
	return fmt.Sprintf("client-%d", i)
}

// caseName is one of the spellings of a word.
func caseName(word string, i int) string {
	b := []byte(word + "0")
	for k := 0; k < len(word); k++ {
		if i>>k&1 == 1 {
			b[k] -= 'a' - 'A'
		}
	}
	b[len(word)] += byte(i >> len(word))
	return string(b)
}

// idOf is the ID of a generated server or client, which it got from psrpc.
func idOf(v any) string {
	e := reflect.ValueOf(v).Elem()
	for i := 0; i < e.NumField(); i++ {
		f := e.Field(i)
		if f.Kind() != reflect.Pointer || f.IsNil() {
			continue
		}
		if f = f.Elem(); f.Kind() != reflect.Struct {
			continue
		}
		sd := f.FieldByName("ServiceDefinition")
		if sd.IsValid() && sd.Kind() == reflect.Pointer && !sd.IsNil() {
			return sd.Elem().FieldByName("ID").String()
		}
	}
	panic("no ID")
}

// ---- servers ---------------------------------------------------------------

type reg struct {
	s                  *snode
	method             string
	topic              []string
	start, done        stamp
	err                error
	unStart, unDone    stamp // deregistration, shutdown, kill or crash
	forced             bool
	removedByGroupFail bool
	cut                stamp // deregistered while the server was shutting down
}

// covers: registered during all of [a,b].
func (r *reg) covers(a, b stamp) bool {
	return r.done.ok() && r.err == nil && r.done.seq < a.seq && (!r.unStart.ok() || r.unStart.seq > b.seq)
}

// overlaps: may have been registered at some moment in [a,b].
func (r *reg) overlaps(a, b stamp) bool {
	return r.start.seq < b.seq && (!r.unDone.ok() || r.unDone.seq > a.seq)
}

type snode struct {
	w        *world
	idx      int
	node     uint32
	id       string
	srv      simpb.SimServer
	srv2     simpb.Sim2Server
	regs     []*reg
	running  int
	created  stamp
	closing  stamp
	closed   stamp
	graceful bool
	crashed  stamp
	base     int
	baseSt   int
	noInfo   bool
	startErr error
	timeout  time.Duration
	size     int
}

var fixedMethods = []string{"Plain", "Aff", "All", "Str", "AStr"}

func (w *world) addServer(opts ...psrpc.ServerOption) *snode {
	s := &snode{w: w, idx: len(w.servers), node: w.node()}
	s.id = w.naming.server(s.idx)
	if s.id == "" && len(w.clients) > 0 { // its ID is needed before it is up
		s.id = namePlain.server(s.idx)
	}
	w.servers = append(w.servers, s)
	w.startServer(s, w.conn(s.node), opts...)
	return s
}

func (w *world) startServer(s *snode, b bus.MessageBus, opts ...psrpc.ServerOption) {
	start := mark()
	s.timeout, s.size = w.srvTO, w.srvSize
	var o []psrpc.ServerOption
	auto := s.id == ""
	if !auto {
		o = append(o, psrpc.WithServerID(s.id))
	}
	o = append(o, w.svcOpts...)
	o = append(o, opts...)
	for _, m := range fixedMethods {
		s.regs = append(s.regs, &reg{s: s, method: m, start: start})
	}
	asNode(s.node, func() {
		s.srv, s.startErr = simpb.NewSimServer(&simImpl{s: s}, b, o...)
	})
	if auto && s.startErr == nil {
		s.id = idOf(s.srv)
	}
	if w.two && s.startErr == nil {
		for _, m := range []string{"2Plain", "2All"} {
			s.regs = append(s.regs, &reg{s: s, method: m, start: start})
		}
		asNode(s.node, func() {
			s.srv2, s.startErr = simpb.NewSim2Server(&sim2Calls{h: &simImpl{s: s}}, b, o...)
		})
	}
	w.spreadOut()
	s.created = mark()
	for _, r := range s.regs {
		r.done = s.created
		r.err = s.startErr
	}
	if s.startErr == nil {
		s.base, s.baseSt = runtime.VerifNodeGoroutines(s.node), s.stateSize()
	}
	logf("server %s on node%d up (%v)", s.id, s.node, s.startErr)
}

func (s *snode) stateSize() int {
	n := stateSize(s.srv)
	if s.srv2 != nil {
		n += stateSize(s.srv2)
	}
	return n
}

func (s *snode) alive() bool { return s.startErr == nil && !s.crashed.ok() && !s.closing.ok() }

func (s *snode) find(method string, topic []string) *reg {
	for i := len(s.regs) - 1; i >= 0; i-- {
		r := s.regs[i]
		if r.method == method && topicString(r.topic) == topicString(topic) && r.err == nil && !r.unStart.ok() {
			return r
		}
	}
	return nil
}

func (s *snode) register(method string, topic ...string) *reg {
	r := &reg{s: s, method: method, topic: topic, start: mark()}
	s.regs = append(s.regs, r)
	r.err = s.registerRaw(method, topic)
	if r.err == nil {
		s.w.spreadOut()
	}
	r.done = mark()
	if r.err != nil {
		r.unStart, r.unDone = r.done, r.done
	}
	logf("%s register %s %q: %v", s.id, method, topic, r.err)
	checked("P14")
	if r.err != nil && !s.closing.ok() && !s.crashed.ok() && s.w.net.subErr == nil {
		bad("P14 P10", "register-refused", "%s: registering %s %q fails with %v, nothing is registered for it", s.id, method, topic, r.err)
	}
	return r
}

func (s *snode) registerRaw(method string, topic []string) (err error) {
	asNode(s.node, func() {
		switch method {
		case "TPlain":
			err = s.srv.RegisterTPlainTopic(topic[0])
		case "2TPlain":
			err = s.srv2.RegisterTPlainTopic(topic[0])
		case "TAff":
			err = s.srv.RegisterTAffTopic(topic[0], topic[1])
		case "TAll":
			err = s.srv.RegisterTAllTopic(topic[0])
		case "TSingle":
			err = s.srv.RegisterTSingleTopic(topic[0])
		case "TStr":
			err = s.srv.RegisterTStrTopic(topic[0])
		case "TSStr":
			err = s.srv.RegisterTSStrTopic(topic[0])
		case "TAStr":
			err = s.srv.RegisterTAStrTopic(topic[0])
		case "GOne":
			err = s.srv.RegisterGOneTopic(topic[0])
		case "GTwo":
			err = s.srv.RegisterGTwoTopic(topic[0])
		case "GThree":
			err = s.srv.RegisterGThreeTopic(topic[0])
		default:
			panic("register " + method)
		}
	})
	return
}

func (s *snode) deregister(r *reg) {
	if r.unStart.ok() {
		r.cut = mark()
		count("event:deregister_during_shutdown")
	} else {
		r.unStart = mark()
	}
	r.forced = true
	s.deregisterRaw(r.method, r.topic)
	r.unDone = mark()
	logf("%s deregistered %s %q", s.id, r.method, r.topic)
}

func (s *snode) deregisterRaw(method string, topic []string) {
	asNode(s.node, func() {
		switch method {
		case "TPlain":
			s.srv.DeregisterTPlainTopic(topic[0])
		case "2TPlain":
			s.srv2.DeregisterTPlainTopic(topic[0])
		case "TAff":
			s.srv.DeregisterTAffTopic(topic[0], topic[1])
		case "TAll":
			s.srv.DeregisterTAllTopic(topic[0])
		case "TSingle":
			s.srv.DeregisterTSingleTopic(topic[0])
		case "TStr":
			s.srv.DeregisterTStrTopic(topic[0])
		case "TSStr":
			s.srv.DeregisterTSStrTopic(topic[0])
		case "TAStr":
			s.srv.DeregisterTAStrTopic(topic[0])
		case "GOne":
			s.srv.DeregisterGOneTopic(topic[0])
		case "GTwo":
			s.srv.DeregisterGTwoTopic(topic[0])
		case "GThree":
			s.srv.DeregisterGThreeTopic(topic[0])
		default:
			panic("deregister " + method)
		}
	})
}

// shut closes the server; blocks until Shutdown or Kill returns.
func (s *snode) shut(graceful bool) {
	m := mark()
	if !s.closing.ok() {
		s.closing = m
		s.graceful = graceful
	} else if s.graceful && !graceful && !s.closed.ok() {
		// killed while it shuts down, which cuts that short
		count("event:kill_during_shutdown")
		s.graceful = false
		for _, r := range s.regs {
			r.forced = r.forced || r.unStart.seq == s.closing.seq
		}
	}
	for _, r := range s.regs {
		if !r.unStart.ok() {
			r.unStart = m
			r.forced = !graceful
		}
	}
	logf("%s closing graceful=%v", s.id, graceful)
	asNode(s.node, func() {
		if graceful {
			s.srv.Shutdown()
			if s.srv2 != nil {
				s.srv2.Shutdown()
			}
		} else {
			s.srv.Kill()
			if s.srv2 != nil {
				s.srv2.Kill()
			}
		}
	})
	m = mark()
	if !s.closed.ok() {
		s.closed = m
	}
	for _, r := range s.regs {
		if !r.unDone.ok() {
			r.unDone = m
		}
	}
	logf("%s closed graceful=%v", s.id, graceful)
}

// shuttingDown: the registration is about to end with a graceful shutdown.
func (s *snode) shuttingDown(r *reg) bool {
	return s.closing.ok() && s.graceful && !s.closed.ok() && r.unStart.seq == s.closing.seq && !r.cut.ok() && !s.crashed.ok()
}

func (s *snode) crash() {
	s.crashed = mark()
	for _, r := range s.regs {
		if !r.unStart.ok() {
			r.unStart = s.crashed
		}
		if !r.unDone.ok() {
			r.unDone = s.crashed
		}
	}
	s.w.net.crash(s.node)
}

// ---- clients ---------------------------------------------------------------

type cnode struct {
	w        *world
	idx      int
	node     uint32
	id       string
	cli      simpb.SimClient
	cli2     simpb.Sim2Client // of another service, under the same name
	err      error
	size     int
	timeout  time.Duration // client timeout; 0: default
	selTO    time.Duration
	closing  stamp
	closed   stamp
	crashed  stamp
	inflight int
	base     int // goroutines when idle
	baseSt   int // state entries when idle
	wedgeOK  bool
}

func (w *world) addClient(size int, timeout, selTO time.Duration, opts ...psrpc.ClientOption) *cnode {
	c := &cnode{w: w, idx: len(w.clients), node: w.node(), size: size, timeout: timeout, selTO: selTO}
	c.id = w.naming.client(c.idx)
	w.clients = append(w.clients, c)
	w.startClient(c, w.conn(c.node), opts...)
	return c
}

func (w *world) startClient(c *cnode, b bus.MessageBus, opts ...psrpc.ClientOption) {
	o := []psrpc.ClientOption{psrpc.WithClientChannelSize(c.size)}
	auto := c.id == ""
	if !auto {
		o = append(o, psrpc.WithClientID(c.id))
	}
	if c.timeout != 0 {
		o = append(o, psrpc.WithClientTimeout(c.timeout))
	}
	if c.selTO != 0 {
		o = append(o, psrpc.WithClientSelectTimeout(c.selTO))
	}
	o = append(o, w.cliOpts...)
	o = append(o, opts...)
	asNode(c.node, func() {
		c.cli, c.err = simpb.NewSimClient(b, o...)
		if w.two && c.err == nil {
			c.cli2, c.err = simpb.NewSim2Client(b, o...)
		}
	})
	if auto && c.err == nil {
		c.id = idOf(c.cli)
	}
	w.spreadOut()
	logf("client %s on node%d up (%v)", c.id, c.node, c.err)
}

func (c *cnode) close() {
	if !c.closing.ok() {
		c.closing = mark()
	}
	logf("%s closing", c.id)
	asNode(c.node, func() {
		c.cli.Close()
		if c.cli2 != nil {
			c.cli2.Close()
		}
	})
	if !c.closed.ok() {
		c.closed = mark()
	}
	logf("%s closed", c.id)
}

func (c *cnode) alive() bool { return c.err == nil && !c.crashed.ok() && !c.closing.ok() }

// ---- calls -----------------------------------------------------------------

type hStart struct {
	ended    bool // the stream was over before its implementation was entered
	s        *snode
	at       stamp
	wall     time.Time
	end      stamp
	deadline time.Time
	hasDL    bool
	head     *metadata.Header
	info     *psrpc.RPCInfo
	resp     *simpb.Resp
	err      error
	panicked bool
}

type offer struct {
	server string
	aff    float32
	at     stamp
}

type resPub struct {
	node uint32
	at   stamp
}

type answer struct {
	res *internal.Response
	at  stamp
}

// behaviour of the implementation for one request
type behave struct {
	kind  int
	delay time.Duration
	code  psrpc.ErrorCode
	msg   string
	det   int
}

const (
	bOK = iota
	bPsrpcErr
	bGrpcErr
	bPlainErr
	bWrappedErr
	bNil
	bWaitCtx
	bPanic
	bBadResp // a response that cannot be encoded
)

type callOp struct {
	id     uint64
	c      *cnode
	method string
	topic  []string
	multi  bool
	req    *simpb.Req
	md     map[string]string

	mdFrom  context.Context
	mdSteps []mdStep

	timeout    time.Duration // request option; 0: none
	ctxTO      time.Duration // context timeout; 0: none
	cancelAt   time.Duration // 0: never
	sel        *psrpc.SelectionOpts
	selFunc    bool
	affs       map[string]float32
	beh        behave
	drain      int   // multi: 0 promptly, 1 slowly, 2 abandoned
	drainMax   int   // ms
	starved    stamp // multi: when its caller last began to wait for an entry
	extra      []psrpc.RequestOption
	probe      bool
	malformed  bool
	str        *strOp          // the call opens a stream
	parent     context.Context // outlives the call; nil: none does
	mwx        *mwOp
	badReq     bool // its request cannot be encoded
	mangledRes int  // responses mangled on their way

	eff     time.Duration // effective time limit
	t0      time.Duration // when the caller began to set up its context
	t0busy  time.Duration
	start   stamp
	wall    time.Time // caller's clock at start
	limitM  stamp     // the moment the limit passed
	wd      stamp     // the same, if the call had not ended
	cancelM stamp
	end     stamp
	resp    *simpb.Resp
	err     error
	// multi
	sendErr error
	entries []*psrpc.Response[*simpb.Resp]
	entryAt []stamp
	closedM stamp

	reqIDs   []string
	pubs     []stamp // request published
	pubFail  bool
	unsent   bool // the bus returned an error for one of its messages
	again    bool // one of its messages was published again
	strayed  bool // its request was given to a process which cannot serve it
	wire     []*internal.Request
	sentAts  []int64
	expiry   int64
	starts   []*hStart
	offers   []offer
	offersSd []offer // sent by servers
	affCalls map[string]int
	chosen   []offer // claim responses published
	answers  []answer
	resPubs  []resPub
	arrived  map[uint32]stamp // request delivered to server node
	arrWall  map[uint32]int64
	selSeen  [][]*psrpc.Claim
	selAt    []stamp
	ackFrom  []uint32
	done     bool
}

func isClaimMethod(m string) bool {
	switch m {
	case "Plain", "Aff", "TPlain", "TAff", "GOne", "Str", "AStr", "TStr", "TAStr", "2Plain", "2TPlain":
		return true
	}
	return false
}
func isAffMethod(m string) bool { return m == "Aff" || m == "TAff" || m == "AStr" || m == "TAStr" }
func isQueueMethod(m string) bool {
	switch m {
	case "Plain", "TPlain", "TSingle", "GOne", "GThree", "2Plain", "2TPlain":
		return true
	}
	return false
}
func isMultiMethod(m string) bool { return m == "All" || m == "TAll" || m == "GTwo" || m == "2All" }

func (w *world) newOp(c *cnode, method string, topic ...string) *callOp {
	op := &callOp{
		id: w.id(), c: c, method: method, topic: topic, multi: isMultiMethod(method),
		affs: map[string]float32{}, affCalls: map[string]int{}, arrived: map[uint32]stamp{}, arrWall: map[uint32]int64{}, mwx: newMwOp(),
	}
	op.req = &simpb.Req{Id: op.id, Text: fmt.Sprintf("req-%d", op.id)}
	w.ops[op.id] = op
	w.opList = append(w.opList, op)
	return op
}

func (op *callOp) String() string {
	return fmt.Sprintf("call#%d %s %s%q", op.id, op.c.id, op.method, op.topic)
}

// parentCtx is the context the caller has: for some calls one that lives on.
func (op *callOp) parentCtx() context.Context {
	from := op.mdFrom
	if from == nil {
		from = context.Background()
	}
	if op.id%2 == 0 {
		return from
	}
	ctx, cf := context.WithCancel(from)
	op.parent = ctx
	op.c.w.late = append(op.c.w.late, cf)
	return ctx
}

// ctxChildren is how many contexts still hang on a caller's context.
func ctxChildren(ctx context.Context) int {
	f := reflect.ValueOf(ctx).Elem().FieldByName("children")
	if !f.IsValid() {
		panic("VERIF-HARNESS no children in context")
	}
	return f.Len()
}

func (op *callOp) options() (opts []psrpc.RequestOption) {
	if op.timeout != 0 {
		opts = append(opts, psrpc.WithRequestTimeout(op.timeout))
	}
	if op.sel != nil {
		so := *op.sel
		if op.selFunc {
			so.SelectionFunc = func(cl []*psrpc.Claim) (string, error) {
				var cp []*psrpc.Claim
				for _, x := range cl {
					y := *x
					cp = append(cp, &y)
				}
				op.selSeen = append(op.selSeen, cp)
				op.selAt = append(op.selAt, mark())
				if len(cl) == 0 {
					return "", errSelNone
				}
				best := cl[0]
				for _, x := range cl {
					if x.Affinity < best.Affinity { // the opposite of the default rule
						best = x
					}
				}
				return best.ServerID, nil
			}
		}
		opts = append(opts, psrpc.WithSelectionOpts(so))
	}
	return append(opts, op.extra...)
}

var errSelNone = psrpc.NewErrorf(psrpc.ResourceExhausted, "selection function found nothing")

// effective selection options of a call
func (op *callOp) selOpts() psrpc.SelectionOpts {
	if op.sel != nil {
		return *op.sel
	}
	at := psrpc.DefaultAffinityTimeout
	if op.c.selTO != 0 {
		at = op.c.selTO
	}
	if isAffMethod(op.method) {
		return psrpc.SelectionOpts{AffinityTimeout: at, ShortCircuitTimeout: psrpc.DefaultAffinityShortCircuit}
	}
	return psrpc.SelectionOpts{AffinityTimeout: at, AcceptFirstAvailable: true}
}

// run performs the call on the client and records what happens.
func (op *callOp) run() {
	w, c := op.c.w, op.c
	ctx := op.parentCtx()
	for _, x := range op.mdSteps {
		ctx = x.apply(ctx)
	}
	op.eff = c.timeout
	if op.eff == 0 {
		op.eff = psrpc.DefaultClientTimeout
		if op.ctxTO != 0 { // the default only serves callers who set no limit at all
			op.eff = op.ctxTO
		}
	}
	if op.timeout != 0 {
		op.eff = op.timeout
	}
	if op.ctxTO != 0 && op.ctxTO < op.eff {
		op.eff = op.ctxTO
	}
	runtime.VerifSetNode(c.node)
	op.wall = time.Now()
	op.t0, op.t0busy = now(), busy()
	if op.ctxTO != 0 {
		var cf context.CancelFunc
		ctx, cf = context.WithTimeout(ctx, op.ctxTO)
		defer cf()
	}
	if op.cancelAt != 0 {
		var cf context.CancelFunc
		ctx, cf = context.WithCancel(ctx)
		defer cf()
		o := runtime.VerifSetNode(0)
		time.AfterFunc(op.cancelAt, func() {
			if !op.done {
				op.cancelM = mark()
				count("fault:cancel")
				logf("%s cancelled", op)
				cf()
			}
		})
		runtime.VerifSetNode(o)
	}
	opts := op.options()
	c.inflight++
	op.start = mark()
	time.AfterFunc(op.eff, func() {
		op.limitM = mark()
		if !op.done {
			op.wd = op.limitM
		}
	})
	logf("%s starts (limit %v)", op, op.eff)
	if op.multi {
		op.runMulti(ctx, opts)
	} else {
		var r *simpb.Resp
		var err error
		switch op.method {
		case "Plain":
			r, err = c.cli.Plain(ctx, op.req, opts...)
		case "2Plain":
			r, err = c.cli2.Plain(ctx, op.req, opts...)
		case "2TPlain":
			r, err = c.cli2.TPlain(ctx, op.topic[0], op.req, opts...)
		case "Aff":
			r, err = c.cli.Aff(ctx, op.req, opts...)
		case "TPlain":
			r, err = c.cli.TPlain(ctx, op.topic[0], op.req, opts...)
		case "TAff":
			r, err = c.cli.TAff(ctx, op.topic[0], op.topic[1], op.req, opts...)
		case "TSingle":
			r, err = c.cli.TSingle(ctx, op.topic[0], op.req, opts...)
		case "GOne":
			r, err = c.cli.GOne(ctx, op.topic[0], op.req, opts...)
		case "GThree":
			r, err = c.cli.GThree(ctx, op.topic[0], op.req, opts...)
		default:
			panic("call " + op.method)
		}
		op.end = mark()
		op.resp, op.err = r, err
		logf("%s ends: %s", op, errStr(err))
	}
	op.done = true
	c.inflight--
	runtime.VerifSetNode(0)
	_ = w
}

func (op *callOp) runMulti(ctx context.Context, opts []psrpc.RequestOption) {
	c := op.c
	var ch <-chan *psrpc.Response[*simpb.Resp]
	var err error
	switch op.method {
	case "All":
		ch, err = c.cli.All(ctx, op.req, opts...)
	case "2All":
		ch, err = c.cli2.All(ctx, op.req, opts...)
	case "TAll":
		ch, err = c.cli.TAll(ctx, op.topic[0], op.req, opts...)
	case "GTwo":
		ch, err = c.cli.GTwo(ctx, op.topic[0], op.req, opts...)
	}
	op.end = mark()
	op.sendErr = err
	if err != nil {
		logf("%s send fails: %s", op, errStr(err))
		return
	}
	if op.drain == 2 {
		logf("%s abandoned", op)
		return
	}
	for {
		op.starved = mark()
		r, ok := <-ch
		if !ok {
			break
		}
		op.entries = append(op.entries, r)
		op.entryAt = append(op.entryAt, mark())
		logf("%s entry %v %s", op, r.Result.GetServer(), errStr(r.Err))
		if op.drain == 1 {
			sleep(time.Duration(1+W(op.drainMax)) * ms)
		}
	}
	op.closedM = mark()
	op.end = op.closedM
	logf("%s channel closed after %d entries", op, len(op.entries))
}

// ---- observation of the wire -------------------------------------------------

func (w *world) onPublish(p *pub) {
	switch m := p.msg.(type) {
	case *internal.Request:
		var r simpb.Req
		if proto.Unmarshal(m.RawRequest, &r) != nil {
			return
		}
		if op := w.ops[r.Id]; op != nil {
			w.byReq[m.RequestId] = op
			op.reqIDs = append(op.reqIDs, m.RequestId)
			op.pubs = append(op.pubs, p.at)
			op.wire = append(op.wire, m)
			op.sentAts = append(op.sentAts, m.SentAt)
			op.expiry = m.Expiry
			op.pubFail = op.pubFail || p.failed
		}
	case *internal.Stream:
		switch b := m.Body.(type) {
		case *internal.Stream_Open:
			sid, _ := strconv.ParseUint(b.Open.Metadata["sid"], 10, 64)
			if op := w.ops[sid]; op != nil && op.str != nil {
				w.byReq[m.RequestId] = op
				op.reqIDs = append(op.reqIDs, m.RequestId)
				op.pubs = append(op.pubs, p.at)
				op.sentAts = append(op.sentAts, m.SentAt)
				op.expiry = m.Expiry
				op.pubFail = op.pubFail || p.failed
			}
		case *internal.Stream_Message:
			var u simpb.CMsg
			if p.failed && proto.Unmarshal(b.Message.RawMessage, &u) == nil {
				if x := w.msgs[u.Id]; x != nil {
					x.pubFail = true
				}
			}
		case *internal.Stream_Ack:
			if op := w.byReq[m.RequestId]; op != nil {
				op.ackFrom = append(op.ackFrom, p.node)
			}
		}
	case *internal.ClaimRequest:
		if op := w.byReq[m.RequestId]; op != nil {
			op.offersSd = append(op.offersSd, offer{m.ServerId, m.Affinity, p.at})
		}
	case *internal.Response:
		if op := w.byReq[m.RequestId]; op != nil {
			op.resPubs = append(op.resPubs, resPub{p.node, p.at})
		}
	case *internal.ClaimResponse:
		if op := w.byReq[m.RequestId]; op != nil {
			op.chosen = append(op.chosen, offer{server: m.ServerId, at: p.at})
			op.pubFail = op.pubFail || p.failed
		}
	}
}

func (w *world) onDeliver(s *simSub, p *pub) {
	switch m := p.msg.(type) {
	case *internal.Request, *internal.Stream:
		id := ""
		if st, ok := m.(*internal.Stream); ok {
			if st.GetOpen() == nil {
				return
			}
			id = st.RequestId
		} else {
			id = m.(*internal.Request).RequestId
		}
		if op := w.byReq[id]; op != nil {
			at := mark()
			if _, ok := op.arrived[s.node]; !ok {
				op.arrived[s.node] = at
				var wall int64
				asNode(s.node, func() { wall = time.Now().UnixNano() })
				op.arrWall[s.node] = wall
			}
		}
	case *internal.ClaimRequest:
		if op := w.byReq[m.RequestId]; op != nil && op.c.node == s.node {
			op.offers = append(op.offers, offer{m.ServerId, m.Affinity, mark()})
		}
	case *internal.Response:
		if op := w.byReq[m.RequestId]; op != nil && op.c.node == s.node {
			op.answers = append(op.answers, answer{m, mark()})
		}
	}
}

// ---- service implementation ----------------------------------------------------

type simImpl struct {
	simpb.UnimplementedSimServer
	s *snode
}

type infoKey struct{}

// infoInterceptor hands the implementation the call info it was invoked with.
func infoInterceptor(ctx context.Context, req proto.Message, info psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
	return next(context.WithValue(ctx, infoKey{}, &info), req)
}

func (h *simImpl) handle(method string, ctx context.Context, req *simpb.Req) (*simpb.Resp, error) {
	s := h.s
	w := s.w
	at := mark()
	op := w.ops[req.GetId()]
	if op == nil {
		bad("P10", "unknown-request", "%s %s ran a request with id %d that nobody sent", s.id, method, req.GetId())
		return nil, psrpc.NewErrorf(psrpc.NotFound, "unknown")
	}
	hs := &hStart{s: s, at: at, wall: time.Now(), head: metadata.IncomingHeader(ctx)}
	hs.deadline, hs.hasDL = ctx.Deadline()
	hs.info, _ = ctx.Value(infoKey{}).(*psrpc.RPCInfo)
	op.starts = append(op.starts, hs)
	s.running++
	logf("%s %s runs %s", s.id, method, op)
	w.checkStart(op, hs, method, req)
	if w.mw != nil {
		w.mw.ran(ctx, op, hs)
	}
	if op.beh.delay > 0 {
		sleep(op.beh.delay)
	}
	w.upset(op, s)
	if op.beh.kind == bPanic {
		hs.panicked = true
		s.running--
		hs.end = mark()
		logf("%s %s panics on %s", s.id, method, op)
	}
	hs.resp, hs.err = op.behave(ctx, s)
	if op.id%2 == 0 && (w.mw == nil || op.mwx.srvTwice < 0) {
		// what an implementation does with its request is nobody else's business
		req.Id, req.Text, req.Blob = ^uint64(0), "taken", nil
	}
	s.running--
	hs.end = mark()
	logf("%s %s done %s: %v", s.id, method, op, hs.err)
	return hs.resp, hs.err
}

type upsetOp struct {
	what       string
	start, end stamp
	node       uint32
	crashed    *stamp
}

// upset is what an implementation, or a reader of a stream, does to the
// server or client it runs for.
func (w *world) upset(op *callOp, s *snode) {
	if w.upsets == nil || op.probe || w.healed || len(*w.upsets) > 3 || F(8) != 0 {
		return
	}
	if s != nil && (s.srv == nil || s.startErr != nil || s.base == 0) {
		return // it is only starting
	}
	u := &upsetOp{start: mark(), node: op.c.node, crashed: &op.c.crashed}
	do := func(what string, f func()) {
		count("event:closed_from_within")
		u.what = what + " from within " + op.String()
		logf("%s", u.what)
		*w.upsets = append(*w.upsets, u)
		f()
		u.end = mark()
	}
	if s != nil {
		u.node, u.crashed = s.node, &s.crashed
	}
	switch k := F(3); {
	case s != nil && k < 2:
		for _, r := range s.regs {
			if r.topic != nil && r.err == nil && r.done.ok() && (!r.unStart.ok() || s.shuttingDown(r)) && r.method == op.method && topicString(r.topic) == topicString(op.topic) {
				do(s.id+" deregisters", func() { s.deregister(r) })
				return
			}
		}
		if k == 1 && len(w.aliveServers()) > 1 && (!s.closing.ok() || s.graceful && !s.closed.ok()) && !s.crashed.ok() {
			do(s.id+" is killed", func() { s.shut(false) })
		}
	case len(w.aliveClients()) > 1 && op.c.alive():
		do(op.c.id+" is closed", op.c.close)
	}
}

func (w *world) checkUpsets() {
	if w.upsets == nil {
		return
	}
	for _, u := range *w.upsets {
		checked("P23")
		if u.crashed.ok() {
			continue
		}
		if !u.end.ok() {
			bad("P23", "hangs-within", "%s does not return", u.what)
		} else if d := idleSince(u.start, u.end) - w.paused[u.node]; d > 10*time.Second+u.end.busy-u.start.busy {
			badk("P23", "late-within", keyIf(w.connecting(u.node, u.start), keyNats), "%s takes %v", u.what, d)
		}
	}
}

// newErr is the error of an implementation; it says what it was told to say.
func (op *callOp) newErr(s *snode, det []proto.Message) error {
	err := psrpc.NewError(op.beh.code, errors.New(op.errText(s)), det...)
	got := err.Details()
	ok := err.Code() == op.beh.code && err.Error() == op.errText(s) && len(got) == len(det)
	for i := 0; ok && i < len(det); i++ {
		m, is := got[i].(proto.Message)
		ok = is && proto.Equal(m, det[i])
	}
	checked("P02")
	if !ok {
		bad("P02", "error-altered", "%s: an error of code %q, text %q and %d details is created as %q, %q, %v", op, op.beh.code, op.errText(s), len(det), err.Code(), err.Error(), got)
	}
	return err
}

func (op *callOp) behave(ctx context.Context, s *snode) (*simpb.Resp, error) {
	b := op.beh
	var det []proto.Message
	for i := 0; i < b.det; i++ {
		det = append(det, &simpb.Upd{Id: op.id, Pub: s.id, Blob: []byte{byte(i)}})
	}
	switch b.kind {
	case bOK:
		return &simpb.Resp{Id: op.id, Server: s.id, Text: "re:" + op.req.Text, Blob: op.req.Blob}, nil
	case bPsrpcErr:
		return nil, op.newErr(s, det)
	case bGrpcErr:
		st := status.New(grpcCodes[b.code], op.errText(s))
		if len(det) > 0 {
			p := st.Proto()
			for _, d := range det {
				a, _ := anypb.New(d)
				p.Details = append(p.Details, a)
			}
			st = status.FromProto(p)
		}
		return nil, st.Err()
	case bPlainErr:
		return nil, errors.New(op.errText(s))
	case bWrappedErr:
		return nil, fmt.Errorf("outer: %w", op.newErr(s, det))
	case bNil:
		return nil, nil
	case bWaitCtx:
		<-ctx.Done()
		return nil, psrpc.NewErrorf(psrpc.Aborted, "%s gave up: %v", op.errText(s), ctx.Err())
	case bBadResp:
		return &simpb.Resp{Id: op.id, Server: s.id, Text: "not UTF-8: \xff"}, nil
	case bPanic:
		count("fault:handler_panic")
		switch op.id % 7 {
		case 0:
			panic(fmt.Sprintf("handler panics for %d", op.id))
		case 1:
			panic(errors.New(op.errText(s)))
		case 2:
			panic(psrpc.NewErrorf(psrpc.NotFound, "%s", op.errText(s)))
		case 3:
			var none []int
			none[op.id]++
		case 4:
			panic(nil)
		case 5:
			panic(context.Canceled)
		case 6:
			panic(&struct{ x any }{x: op.id})
		}
	}
	return nil, nil
}

func (op *callOp) errText(s *snode) string {
	if op.beh.msg == "" {
		return ""
	}
	return fmt.Sprintf("%s %d@%s", op.beh.msg, op.id, s.id)
}

func (h *simImpl) affinity(ctx context.Context, method string, req *simpb.Req) float32 {
	op := h.s.w.ops[req.GetId()]
	if op == nil {
		bad("P10", "unknown-request", "%s affinity of %s asked for id %d", h.s.id, method, req.GetId())
		return -1
	}
	if op.method != method {
		bad("P10", "wrong-method-affinity", "%s affinity of %s asked for %s", h.s.id, method, op)
	}
	if head := metadata.IncomingHeader(ctx); head == nil {
		bad("P05", "no-header", "%s affinity of %s asked without a header", h.s.id, op)
	} else {
		op.checkHead(h.s.id, "is asked its affinity for", head)
	}
	op.affCalls[h.s.id]++
	if a, ok := op.affs[h.s.id]; ok {
		return a
	}
	return 1
}

func (h *simImpl) Plain(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.handle("Plain", ctx, r)
}
func (h *simImpl) Aff(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.handle("Aff", ctx, r)
}
func (h *simImpl) AffAffinity(ctx context.Context, r *simpb.Req) float32 {
	return h.affinity(ctx, "Aff", r)
}
func (h *simImpl) All(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.handle("All", ctx, r)
}
func (h *simImpl) TPlain(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.handle("TPlain", ctx, r)
}
func (h *simImpl) TAff(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.handle("TAff", ctx, r)
}
func (h *simImpl) TAffAffinity(ctx context.Context, r *simpb.Req) float32 {
	return h.affinity(ctx, "TAff", r)
}
func (h *simImpl) TAll(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.handle("TAll", ctx, r)
}
func (h *simImpl) TSingle(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.handle("TSingle", ctx, r)
}
func (h *simImpl) GOne(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.handle("GOne", ctx, r)
}
func (h *simImpl) GTwo(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.handle("GTwo", ctx, r)
}
func (h *simImpl) GThree(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.handle("GThree", ctx, r)
}

// sim2Calls implements the second service by the same rules.
type sim2Calls struct {
	simpb.UnimplementedSim2Server
	h *simImpl
}

func (h *sim2Calls) Plain(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.h.handle("2Plain", ctx, r)
}
func (h *sim2Calls) All(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.h.handle("2All", ctx, r)
}
func (h *sim2Calls) TPlain(ctx context.Context, r *simpb.Req) (*simpb.Resp, error) {
	return h.h.handle("2TPlain", ctx, r)
}

// ---- state left behind -----------------------------------------------------------

// stateSize counts the entries of all maps reachable from v through types of
// the module: what a client or server keeps per call, stream or topic.
func stateSize(v any) int {
	seen := map[uintptr]bool{}
	return stateWalk(reflect.ValueOf(v), seen, 0)
}

// busEntries counts the entries of all maps of a message bus.
func busEntries(v any) int {
	walkBus = true
	defer func() { walkBus = false }()
	return stateSize(v)
}

var walkBus bool

func stateWalk(v reflect.Value, seen map[uintptr]bool, depth int) int {
	if depth > 12 {
		return 0
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return 0
		}
		return stateWalk(v.Elem(), seen, depth+1)
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] || !inModule(v.Type().Elem()) {
			return 0
		}
		seen[v.Pointer()] = true
		return stateWalk(v.Elem(), seen, depth+1)
	case reflect.Struct:
		if !inModule(v.Type()) {
			return 0
		}
		n := 0
		for i := 0; i < v.NumField(); i++ {
			n += stateWalk(v.Field(i), seen, depth+1)
		}
		return n
	case reflect.Map:
		n := v.Len()
		it := v.MapRange()
		for it.Next() {
			n += stateWalk(it.Value(), seen, depth+1)
		}
		return n
	}
	return 0
}

func inModule(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.HasPrefix(p, "github.com/livekit/psrpc") && (walkBus || !strings.HasSuffix(p, "/internal/bus")) &&
		!strings.HasSuffix(p, "verifsim")
}
