package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/verifsim/simpb"
	"github.com/livekit/psrpc/pkg/metadata"
)

func init() {
	scenario(2, "streams", func(e *env) { runStreams(e, fabricSim) })
	scenario(6, "streams over the local bus", func(e *env) { runStreams(e, fabricLocal) })
	scenario(12, "streams over the Redis bus", func(e *env) { runStreams(e, fabricRedis) })
	scenario(13, "streams over the NATS bus", func(e *env) { runStreams(e, fabricNats) })
	scenario(15, "streams with middleware", func(e *env) { e.mw = true; runStreams(e, fabricSim) })
}

// strMsg is one message sent on a stream.
type strMsg struct {
	id         uint64
	from       *strEnd
	sender     int
	blob       []byte
	timeout    time.Duration
	start, end stamp
	err        error
	got        []*strEnd
	gotAt      []stamp
	gotIdx     int
	again      bool // was published again
	unser      bool // cannot be serialized
	pubFail    bool // the transport reported that it could not publish it
	mangled    []stamp
	reached    []reach // where it arrived mangled
	evS, evR   []string
	recvErr    []error
	tries      []*mwTry
	retried    bool
}

func (m *strMsg) text() string {
	if m.unser {
		return "not UTF-8: \xff"
	}
	return ""
}

type strClose struct {
	kind       string
	cause      error // as the peer is to see it
	start, end stamp
	err        error
}

// strEnd is one side of a stream.
type strEnd struct {
	op      *strOp
	who     string
	server  *snode // nil: client side
	node    uint32
	sto     time.Duration // send timeout
	size    int
	sends   []*strMsg
	recvd   []*strMsg
	closes  []*strClose
	shutM   stamp // receive channel closed
	errShut error
	opened  stamp
	reading bool
	slow    bool
	abandon bool // nobody reads until the end
	doRecv  func() (uint64, []byte, bool, bool)
	send    func(id uint64, blob []byte, opts ...psrpc.StreamOption) error
	ctxEnd  stamp // the caller's context ended by its deadline
	closeFn func(error) error
	errFn   func() error
}

type strOp struct {
	*callOp
	maxTO   time.Duration // the longest send timeout in use
	cli     *strEnd
	srvs    []*strEnd
	plan    strPlan
	cancel  func()
	openCli psrpc.ClientStream[*simpb.CMsg, *simpb.SMsg]
}

type strPlan struct {
	cSenders, sSenders int
	cMsgs, sMsgs       int
	gap                time.Duration
	sto                time.Duration // per-send option; 0: none
	cRead, sRead       int           // 0 promptly, 1 slowly, 2 not before the stream has ended
	cEnd, sEnd         int
	cAfter, sAfter     time.Duration
	cUpon, sUpon       int // close on receipt of so many messages
	cCause, sCause     error
	conc               bool // close again, concurrently
}

const (
	endWait   = iota // leave closing to the other side
	endClose         // close
	endCancel        // client: cancel the context
	endReturn        // server: handler returns
	endHijack        // server: handler returns, stream lives on until closed
)

func (w *world) newStream(c *cnode, method string, topic ...string) *strOp {
	op := w.newOp(c, method, topic...)
	so := &strOp{callOp: op}
	op.str = so
	x := mdStep{how: mdNew, md: metadata.Metadata{"sid": strconv.FormatUint(op.id, 10)}}
	op.mdSteps, op.md = []mdStep{x}, x.model(nil)
	return so
}

func wireCause(err error) string {
	if err == nil {
		err = psrpc.ErrStreamClosed
	}
	var e psrpc.Error
	if errors.As(err, &e) {
		return string(e.Code()) + "|" + e.Error()
	}
	return string(psrpc.Unknown) + "|" + err.Error()
}

func (e *strEnd) init(kind string, cause error) *strClose {
	c := &strClose{kind: kind, cause: cause, start: mark()}
	e.closes = append(e.closes, c)
	logf("%s %s ends the stream: %s %v", e.op, e.who, kind, cause)
	return c
}

// sending reports whether a message was being sent between two moments.
func (e *strEnd) sending(from, to stamp) bool {
	for _, m := range e.sends {
		if (!to.ok() || m.start.seq < to.seq) && (!m.end.ok() || m.end.seq > from.seq) {
			return true
		}
	}
	return false
}

func (e *strEnd) close(kind string, cause error) {
	c := e.init(kind, cause)
	seen := func() int { return 1 }
	if m := e.op.c.w.mw; m != nil {
		side, n := "c", m.nStr
		if e.server != nil {
			side, n = "s", m.nSStr
		}
		if n > 0 {
			checked("P16")
			before := m.closes[side+"+0"]
			seen = func() int { return m.closes[side+"+0"] - before }
		}
	}
	c.err = e.closeFn(cause)
	c.end = mark()
	if seen() == 0 {
		bad("P16", "close-not-seen", "%s %s: no stream interceptor saw it being closed", e.op, e.who)
	}
	logf("%s %s close returns %v", e.op, e.who, c.err)
}

// take records a message that was on the receive channel.
func (e *strEnd) take(id uint64, blob []byte) {
	w := e.op.c.w
	checked("P11")
	m := w.msgs[id]
	if m == nil {
		bad("P11 P10", "unknown-message", "%s %s received message %d that nobody sent", e.op, e.who, id)
		return
	}
	if m.from.op != e.op || (m.from.server == nil) == (e.server == nil) {
		bad("P11 P10", "wrong-stream", "%s %s received message %d of %s %s", e.op, e.who, id, m.from.op, m.from.who)
	}
	if string(blob) != string(m.blob) {
		bad("P11", "altered", "%s %s received message %d altered", e.op, e.who, id)
	}
	for j := range blob {
		blob[j] = '?'
	}
	if len(m.got) >= max(1, len(m.tries)) {
		badk("P11", "delivered-twice", keyIf(m.again, keyTwice), "%s %s received message %d a second time", e.op, e.who, id)
	}
	m.got = append(m.got, e)
	m.gotAt = append(m.gotAt, mark())
	m.gotIdx = len(e.recvd)
	e.recvd = append(e.recvd, m)
	logf("%s %s receives %d", e.op, e.who, id)
}

func (e *strEnd) upon() int {
	if e.server != nil {
		return e.op.plan.sUpon
	}
	return e.op.plan.cUpon
}

func (p *strPlan) causeOf(e *strEnd) error {
	if e.server != nil {
		return p.sCause
	}
	return p.cCause
}

// readAll reads until the channel closes.
func (e *strEnd) readAll(mode int) {
	e.reading = true
	if mode == 2 {
		e.abandon = true
		waitUntil(20*time.Second, func() bool { return e.errFn() != nil })
		sleep(100 * ms)
	}
	if mode == 1 {
		e.slow = true
	}
	for {
		id, blob, ok, _ := e.doRecv()
		if !ok {
			break
		}
		e.take(id, blob)
		if len(e.recvd) == e.upon() {
			count("event:closed_on_receipt")
			if end := func() { e.close("close", e.op.plan.causeOf(e)) }; WP(1, 2) {
				end()
			} else {
				goNode(e.node, end)
			}
		}
		if e.server == nil {
			e.op.c.w.upset(e.op.callOp, nil)
		}
		if mode == 1 {
			sleep(time.Duration(W(60)) * ms)
		}
	}
	e.shutM = mark()
	e.errShut = e.errFn()
	logf("%s %s channel closed: %v", e.op, e.who, e.errShut)
}

func (e *strEnd) sendLoop(sender, n int, gap, sto time.Duration) {
	w := e.op.c.w
	for i := 0; i < n; i++ {
		m := &strMsg{id: w.id(), from: e, sender: sender, timeout: e.sto}
		if WP(1, 5) {
			m.blob = []byte(fmt.Sprintf("payload of %d", m.id))
			if WP(1, 6) {
				m.blob = []byte(strings.Repeat(fmt.Sprintf("large payload of %d ", m.id), 1+W(300)))
				count("event:large_message")
			}
		}
		if WP(1, 30) {
			m.unser = true
			count("event:unserializable_message")
		}
		var opts []psrpc.StreamOption
		if sto > 0 {
			m.timeout = sto
			opts = append(opts, psrpc.WithTimeout(sto))
		}
		e.op.maxTO = max(e.op.maxTO, m.timeout)
		w.msgs[m.id] = m
		e.sends = append(e.sends, m)
		m.start = mark()
		b := slices.Clone(m.blob)
		m.err = e.send(m.id, b, opts...)
		// the message is the sender's again
		for j := range b {
			b[j] = '!'
		}
		m.end = mark()
		logf("%s %s sent %d: %v", e.op, e.who, m.id, m.err)
		if e.shutM.ok() && m.start.seq > e.shutM.seq {
			return
		}
		if m.err != nil && e.errFn() != nil && WP(2, 3) {
			return
		}
		if gap > 0 {
			sleep(time.Duration(W(int(gap/ms)+1)) * ms)
		}
	}
}

func recvFrom[T proto.Message](ch <-chan T, f func(T) (uint64, []byte)) func() (uint64, []byte, bool, bool) {
	return func() (uint64, []byte, bool, bool) {
		m, ok := <-ch
		if !ok {
			return 0, nil, false, true
		}
		id, b := f(m)
		proto.Reset(m) // it is the receiver's
		return id, b, true, true
	}
}

// runClient opens the stream and acts out the client's part.
func (op *strOp) runClient() {
	c := op.c
	w := c.w
	ctx := op.parentCtx()
	for _, x := range op.mdSteps {
		ctx = x.apply(ctx)
	}
	op.eff = c.timeout
	if op.eff == 0 {
		op.eff = psrpc.DefaultClientTimeout
		if op.ctxTO != 0 { // the default only serves callers who set no limit at all
			op.eff = op.ctxTO
		}
	}
	if op.timeout != 0 {
		op.eff = op.timeout
	}
	sto := op.eff
	if op.ctxTO != 0 && op.ctxTO < op.eff {
		op.eff = op.ctxTO
		if op.timeout == 0 {
			sto = op.ctxTO
		}
	}
	op.maxTO = max(op.maxTO, sto)
	runtime.VerifSetNode(c.node)
	op.wall = time.Now()
	op.t0, op.t0busy = now(), busy()
	e := &strEnd{op: op, who: "client", node: c.node, sto: sto, size: c.size}
	var cf context.CancelFunc
	if op.ctxTO != 0 {
		ctx, cf = context.WithTimeout(ctx, op.ctxTO)
	} else {
		ctx, cf = context.WithCancel(ctx)
	}
	if op.ctxTO != 0 {
		time.AfterFunc(op.ctxTO, func() { e.ctxEnd = mark() })
	}
	cancel := cf
	op.cancel = func() {
		if e.opened.ok() || op.done {
			e.init("cancel", context.Canceled)
		} else {
			op.cancelM = mark()
			e.init("cancel", context.Canceled)
			logf("%s open cancelled", op)
		}
		cancel()
	}
	op.cli = e
	if op.cancelAt != 0 {
		o := runtime.VerifSetNode(0)
		time.AfterFunc(op.cancelAt, func() {
			if !op.done {
				count("fault:cancel")
				op.cancel()
			}
		})
		runtime.VerifSetNode(o)
	}
	opts := op.options()
	c.inflight++
	defer func() { c.inflight-- }()
	op.start = mark()
	time.AfterFunc(op.eff, func() {
		op.limitM = mark()
		if !op.done {
			op.wd = op.limitM
		}
	})
	logf("%s opens (limit %v)", op, op.eff)
	var s psrpc.ClientStream[*simpb.CMsg, *simpb.SMsg]
	var err error
	switch op.method {
	case "Str":
		s, err = c.cli.Str(ctx, opts...)
	case "AStr":
		s, err = c.cli.AStr(ctx, opts...)
	case "TStr":
		s, err = c.cli.TStr(ctx, op.topic[0], opts...)
	case "TSStr":
		s, err = c.cli.TSStr(ctx, op.topic[0], opts...)
	case "TAStr":
		s, err = c.cli.TAStr(ctx, op.topic[0], opts...)
	}
	op.end = mark()
	op.err = err
	op.done = true
	logf("%s open returns %v", op, err)
	if op.parent != nil {
		// the caller's context outlives the stream
		cf0 := cf
		w.late = append(w.late, cf0)
		cf = func() {}
	}
	if err != nil {
		cf()
		runtime.VerifSetNode(0)
		return
	}
	op.openCli = s
	e.opened = op.end
	e.doRecv = recvFrom(s.Channel(), func(m *simpb.SMsg) (uint64, []byte) { return m.Id, m.Blob })
	e.send = func(id uint64, b []byte, o ...psrpc.StreamOption) error {
		return s.Send(&simpb.CMsg{Id: id, Blob: b, Text: w.msgs[id].text()}, o...)
	}
	e.closeFn = s.Close
	e.errFn = s.Err
	g := newGroup()
	g.Go(c.node, func() { e.readAll(op.plan.cRead) })
	for i := 0; i < op.plan.cSenders; i++ {
		g.Go(c.node, func() { e.sendLoop(i, op.plan.cMsgs, op.plan.gap, op.plan.sto) })
	}
	switch op.plan.cEnd {
	case endClose:
		waitUntil(op.plan.cAfter, func() bool { return false })
		e.close("close", op.plan.cCause)
		if op.plan.conc {
			g.Go(c.node, func() { e.close("close", errors.New("again")) })
		}
	case endCancel:
		sleep(op.plan.cAfter)
		count("fault:cancel")
		op.cancel()
	}
	waitUntil(15*time.Second, func() bool { return e.shutM.ok() || g.n == 0 || w.healed && len(e.closes) == 0 })
	if !e.shutM.ok() {
		e.close("final", nil)
	}
	g.Wait(20 * time.Second)
	cf()
	runtime.VerifSetNode(0)
}

// serveStream is the service implementation of all stream methods.
func (h *simImpl) serveStream(method string, ss psrpc.ServerStream[*simpb.SMsg, *simpb.CMsg]) error {
	s := h.s
	w := s.w
	at, wall := mark(), time.Now()
	head := metadata.IncomingHeader(ss.Context())
	if head == nil {
		bad("P05", "no-header", "%s serves a %s stream without a header", s.id, method)
		return nil
	}
	sid, _ := strconv.ParseUint(head.Metadata["sid"], 10, 64)
	op := w.ops[sid]
	if op == nil || op.str == nil {
		bad("P10", "unknown-request", "%s serves a %s stream that nobody opened: %v", s.id, method, head.Metadata)
		return nil
	}
	so := op.str
	hs := &hStart{s: s, at: at, wall: wall, head: head, ended: ss.Err() != nil}
	op.starts = append(op.starts, hs)
	logf("%s %s serves %s", s.id, method, op)
	w.checkStart(op, hs, method, nil)
	e := &strEnd{op: so, who: s.id, server: s, node: s.node, sto: s.timeout, size: s.size, opened: at}
	so.maxTO = max(so.maxTO, s.timeout)
	so.srvs = append(so.srvs, e)
	e.doRecv = recvFrom(ss.Channel(), func(m *simpb.CMsg) (uint64, []byte) { return m.Id, m.Blob })
	e.send = func(id uint64, b []byte, o ...psrpc.StreamOption) error {
		return ss.Send(&simpb.SMsg{Id: id, Blob: b, Text: w.msgs[id].text()}, o...)
	}
	e.closeFn = ss.Close
	e.errFn = ss.Err
	p := &so.plan
	g := newGroup()
	g.Go(s.node, func() { e.readAll(p.sRead) })
	for i := 0; i < p.sSenders; i++ {
		g.Go(s.node, func() { e.sendLoop(i, p.sMsgs, p.gap, p.sto) })
	}
	done := func() error {
		hs.end = mark()
		logf("%s done serving %s", s.id, op)
		return nil
	}
	w.upset(op, s)
	switch p.sEnd {
	case endReturn:
		waitUntil(p.sAfter, func() bool { return e.shutM.ok() })
		e.init("return", p.sCause)
		done()
		return p.sCause
	case endClose:
		waitUntil(p.sAfter, func() bool { return e.shutM.ok() })
		e.close("close", p.sCause)
		if p.conc {
			e.close("close", errors.New("again"))
		}
		g.Wait(20 * time.Second)
		return done()
	case endHijack:
		ss.Hijack()
		goNode(s.node, func() {
			waitUntil(p.sAfter, func() bool { return e.shutM.ok() })
			e.close("close", p.sCause)
		})
		if done(); op.id%2 == 0 {
			return errors.New("the stream lives on")
		}
		return nil
	}
	waitUntil(40*time.Second, func() bool { return e.shutM.ok() })
	if !e.shutM.ok() {
		e.init("return", nil)
	}
	return done()
}

func (h *simImpl) streamAffinity(ctx context.Context) float32 {
	head := metadata.IncomingHeader(ctx)
	if head == nil {
		bad("P05", "no-header", "%s affinity of a stream asked without a header", h.s.id)
		return 1
	}
	sid, _ := strconv.ParseUint(head.Metadata["sid"], 10, 64)
	op := h.s.w.ops[sid]
	if op == nil {
		bad("P10", "unknown-request", "%s affinity of a stream asked for id %d", h.s.id, sid)
		return -1
	}
	op.checkHead(h.s.id, "is asked its affinity for", head)
	op.affCalls[h.s.id]++
	if a, ok := op.affs[h.s.id]; ok {
		return a
	}
	return 1
}

func (h *simImpl) Str(ss psrpc.ServerStream[*simpb.SMsg, *simpb.CMsg]) error {
	return h.serveStream("Str", ss)
}
func (h *simImpl) AStr(ss psrpc.ServerStream[*simpb.SMsg, *simpb.CMsg]) error {
	return h.serveStream("AStr", ss)
}
func (h *simImpl) TStr(ss psrpc.ServerStream[*simpb.SMsg, *simpb.CMsg]) error {
	return h.serveStream("TStr", ss)
}
func (h *simImpl) TSStr(ss psrpc.ServerStream[*simpb.SMsg, *simpb.CMsg]) error {
	return h.serveStream("TSStr", ss)
}
func (h *simImpl) TAStr(ss psrpc.ServerStream[*simpb.SMsg, *simpb.CMsg]) error {
	return h.serveStream("TAStr", ss)
}
func (h *simImpl) TAStrAffinity(ctx context.Context) float32 { return h.streamAffinity(ctx) }
func (h *simImpl) AStrAffinity(ctx context.Context) float32  { return h.streamAffinity(ctx) }

func (w *world) genStream(e *env, mix callMix) *strOp {
	cl := w.clients
	if !WP(1, 20) {
		cl = w.aliveClients()
	}
	if len(cl) == 0 {
		return nil
	}
	c := cl[W(len(cl))]
	if c.err != nil || c.crashed.ok() {
		return nil
	}
	var op *strOp
	switch W(6) {
	case 0, 1:
		op = w.newStream(c, "Str")
	case 2:
		op = w.newStream(c, "AStr")
	case 3:
		op = w.newStream(c, "TStr", mix.topics[W(len(mix.topics))])
	case 4:
		op = w.newStream(c, "TAStr", mix.topics[W(len(mix.topics))])
	case 5:
		op = w.newStream(c, "TSStr", ownTopic(mix.topics, w.servers[W(len(w.servers))]))
	}
	op.drawOptions(e, callMix{wantTO: mix.wantTO})
	op.req = nil
	if op.ctxTO != 0 && WP(2, 3) {
		op.ctxTO *= 4
	}
	if op.cancelAt != 0 && WP(1, 2) {
		op.cancelAt = 0
	}
	p := &op.plan
	p.cSenders, p.sSenders = pick(1, 0, 2, 3), pick(1, 0, 2)
	p.cMsgs, p.sMsgs = 1+W(pick(4, 12)), 1+W(pick(4, 12))
	p.gap = pick(0, 3*ms, 30*ms)
	if WP(1, 3) {
		p.sto = pick(500*ms, 20*ms, 100*ms, 2000*ms)
	}
	p.cRead, p.sRead = pick(0, 0, 0, 1, 2), pick(0, 0, 0, 1, 2)
	p.cEnd = pick(endClose, endWait, endClose, endCancel)
	p.sEnd = pick(endWait, endReturn, endClose, endHijack)
	p.cAfter, p.sAfter = time.Duration(W(pick(50, 500, 2000)))*ms, time.Duration(W(pick(50, 500, 2000)))*ms
	if e.focus == 3 {
		p.sSenders, p.sMsgs, p.gap = 1+W(3), 4+W(12), pick(0, 0, ms)
	}
	if w.rush && WP(2, 3) {
		p.cSenders, p.sSenders, p.gap = 1+W(3), 1+W(3), 0
		p.cMsgs, p.sMsgs = 5+W(15), 5+W(15)
		us := pick(300, 3000, 30000)
		p.cAfter, p.sAfter = time.Duration(W(us))*time.Microsecond, time.Duration(W(us))*time.Microsecond
	}
	if WP(1, 5) || e.focus == 12 && WP(1, 3) {
		// what is on its way arrives while the stream is being closed
		p.cSenders, p.cMsgs = 2+W(2), 2+W(6)
		p.sSenders, p.sMsgs = 2+W(2), 2+W(6)
		p.gap, p.cRead, p.sRead = pick(0, 0, ms), 0, 0
		if n := 1 + W(6); WP(1, 2) {
			p.sUpon = n
		} else {
			p.cUpon = n
		}
	}
	causes := []error{nil, psrpc.NewErrorf(psrpc.NotFound, "client left %d", op.id), errors.New("plain reason"), psrpc.ErrStreamEOF,
		psrpc.NewError(psrpc.ResourceExhausted, errors.New(""))}
	p.cCause = causes[W(len(causes))]
	p.sCause = causes[W(len(causes))]
	p.conc = WP(1, 4)
	return op
}

func runStreams(e *env, fabric int) {
	c := e.plan().on(e, fabric)
	w := newWorld(e.netFor(c, fabric))
	w.lossy = c.loss || c.pubErr || w.net.slowDen > 0 || c.cut || c.crash || c.skew
	w.useFabric(e, fabric)
	st := cpick(e.cfgRng, 0, 0, 200*ms, 1000*ms)
	if st != 0 {
		w.srvTO = st
		w.svcOpts = append(w.svcOpts, psrpc.WithServerTimeout(st))
	}
	if sz := cpick(e.cfgRng, 0, 0, 1, 2, 10); sz != 0 {
		w.srvSize = sz
		w.svcOpts = append(w.svcOpts, psrpc.WithServerChannelSize(sz))
	}
	mix := callMix{multi: 20, aff: 30, wantTO: e.p(2, 3), behs: true}
	w.drawUpsets(e, c)
	w.rush = e.p(1, 4) || e.focus == 12 && e.p(1, 3)
	if e.mw {
		w.useMiddleware(e)
		if e.focus == 18 || e.focus == 0 && e.p(1, 3) {
			w.useNoise(e)
		}
	}
	nt := e.between(1, 3)
	mix.topics = e.topics(nt)
	w.drawNaming(e)
	w.drawContexts()
	nSrv, nCli := e.between(1, 3), e.between(1, 3)
	for i := 0; i < nSrv; i++ {
		w.addServer()
	}
	for i := 0; i < nCli; i++ {
		size := cpick(e.cfgRng, 1, 2, 5, 100, 100)
		if e.focus == 3 {
			size = min(size, 2)
		}
		w.addClient(size, cpick(e.cfgRng, 0, 0, 300*ms, 5000*ms), cpick(e.cfgRng, 0, 0, 50*ms, 400*ms))
	}
	sleep(2 * ms)
	for _, cl := range w.clients {
		w.baseline(cl)
	}
	for _, s := range w.servers {
		for range mix.topics {
			if WP(2, 3) {
				w.registerSome(s, "TStr", mix.topics)
			}
			if WP(1, 2) {
				w.registerSome(s, "TAStr", mix.topics)
			}
		}
		if WP(3, 4) {
			s.register("TSStr", ownTopic(mix.topics, s))
		}
	}
	sleep(time.Duration(W(20)) * ms)
	stop := false
	chaosDone := newGroup()
	if c.n > 0 {
		chaosDone.Go(0, func() { w.chaos(e, c, mix, &stop) })
	}
	chaosDone.Go(0, func() { w.roughen(&stop) })
	if noisy {
		gap := cpick(e.cfgRng, 2*ms, 20*ms, 100*ms)
		chaosDone.Go(0, func() { w.noise(gap, &stop) })
	}
	nOps := e.between(2, 10)
	if e.p(1, 5) {
		nOps = e.between(10, 25)
	}
	calls := e.p(1, 3) || e.focus == 3 || e.focus == 13
	gap := cpick(e.cfgRng, 0, 3, 50, 300)
	act := newGroup()
	w.streams = act
	for i := 0; i < nOps; i++ {
		if op := w.genStream(e, mix); op != nil {
			act.Go(op.c.node, op.runClient)
		}
		if calls && WP(1, 2) {
			if op := w.genOp(e, mix); op != nil {
				goNode(op.c.node, op.run)
			}
		}
		if gap > 0 {
			sleep(time.Duration(W(gap)) * ms)
		}
	}
	waitUntil(20*time.Second, func() bool { return act.n == 0 })
	stop = true
	chaosDone.Wait(20 * time.Second)
	w.heal()
	w.healed = true
	act.Wait(60 * time.Second)
	sleep(6 * time.Second)
	for _, cl := range w.aliveClients() {
		op := w.newStream(cl, "Str")
		op.probe = true
		op.timeout = 2 * time.Second
		op.plan = strPlan{cSenders: 1, cMsgs: 1, sSenders: 1, sMsgs: 1, cEnd: endClose, cAfter: 500 * ms}
		act.Go(cl.node, op.runClient)
	}
	if e.p(1, 2) {
		w.probe(mix.topics)
	}
	act.Wait(60 * time.Second)
	sleep(6 * time.Second)
	w.checkIdleState()
	if e.focus == 15 || e.p(1, 4) {
		w.checkIdleServers()
	}
	w.closeAll(e)
	sleep(50 * time.Second)
	w.checkClosedState()
	w.checkFabric()
	w.checkCalls()
	for _, op := range w.opList {
		w.checkSelection(op)
		if op.str != nil {
			w.checkStream(op.str)
		}
	}
	w.checkShutdown()
	w.checkUpsets()
	w.checkMw()
	countN("ops", len(w.opList))
	countN("stream_messages", len(w.msgs))
}

// ---- oracles ------------------------------------------------------------------

// checkOpen is the part of checkUnary that fits the opening of a stream.
func (w *world) checkOpen(op *callOp) {
	so := op.str
	checked("P12")
	if n := len(op.starts); n > 1 {
		badk("P12 P01", "served-twice", keyIf(op.again, keyTwice), "%s is served %d times", op, n)
	}
	if op.err == nil {
		if len(op.starts) == 0 && !w.lossy && !w.anyShut() {
			bad("P12", "open-without-server", "%s opened, but nobody serves it", op)
		}
		if len(op.starts) == 0 && len(op.ackFrom) == 0 {
			bad("P12", "open-without-ack", "%s opened, but no server acknowledged it", op)
		}
		return
	}
	w.checkErr(op)
	_ = so
}

func (w *world) anyShut() bool {
	for _, s := range w.servers {
		if s.closing.ok() || s.crashed.ok() {
			return true
		}
	}
	return false
}

func (so *strOp) ends() (r []*strEnd) {
	if so.cli != nil && so.cli.opened.ok() {
		r = append(r, so.cli)
	}
	return append(r, so.srvs...)
}

// initiated lists every reason for which this side may have ended the stream.
func (e *strEnd) initiated() (r []*strClose) {
	r = append(r, e.closes...)
	w := e.op.c.w
	if noisy {
		for _, p := range e.op.ends() {
			if (p.server == nil) == (e.server == nil) {
				continue
			}
			for _, m := range p.sends {
				for _, at := range m.mangled {
					r = append(r, &strClose{kind: "mangled", cause: errMalformed, start: at})
				}
			}
		}
	}
	if e.server == nil {
		if c := e.op.c; c.closing.ok() {
			r = append(r, &strClose{kind: "client closed", start: c.closing})
		}
		if to := e.op.ctxTO; to != 0 && (!e.shutM.ok() || e.shutM.t-e.op.t0 > to-ms) {
			r = append(r, &strClose{kind: "deadline", cause: context.DeadlineExceeded, start: e.op.start})
		}
		if e.op.err != nil { // a failed open closes the stream with its error
			r = append(r, &strClose{kind: "open failed", cause: e.op.err, start: e.op.start})
			for _, c := range []error{context.DeadlineExceeded, context.Canceled, errSimPublish} {
				r = append(r, &strClose{kind: "open failed", cause: c, start: e.op.start})
			}
		}
	} else {
		s := e.server
		for _, g := range s.regs {
			if g.method == e.op.method && topicString(g.topic) == topicString(e.op.topic) && g.unStart.ok() {
				r = append(r, &strClose{kind: "server closed", cause: psrpc.ErrStreamEOF, start: g.unStart})
			}
		}
		if w.net.pubErrDen > 0 { // the acknowledgement of the opening may have failed
			r = append(r, &strClose{kind: "ack failed", cause: psrpc.NewError(psrpc.Internal, errSimPublish), start: e.opened})
		}
	}
	return
}

func (w *world) checkStream(so *strOp) {
	op := so.callOp
	if op.c.crashed.ok() && len(so.srvs) == 0 || so.cli == nil {
		return
	}
	ends := so.ends()
	var cliI, srvI []*strClose
	cliI = so.cli.initiated()
	for _, e := range so.srvs {
		srvI = append(srvI, e.initiated()...)
	}
	if w.net.pubErrDen > 0 { // the acknowledgement of the opening may have failed on a server that then never started
		srvI = append(srvI, &strClose{kind: "ack failed", cause: psrpc.NewError(psrpc.Internal, errSimPublish), start: op.start})
		// and the server may have been closing meanwhile
		for _, s := range w.servers {
			for _, g := range s.regs {
				if g.method == op.method && topicString(g.topic) == topicString(op.topic) && g.unStart.ok() {
					srvI = append(srvI, &strClose{kind: "server closed", cause: psrpc.ErrStreamEOF, start: g.unStart})
				}
			}
		}
	}
	first := stamp{}
	for _, i := range append(append([]*strClose(nil), cliI...), srvI...) {
		if !first.ok() || i.start.seq < first.seq {
			first = i.start
		}
	}
	for _, e := range ends {
		own, peer := cliI, srvI
		if e.server != nil {
			own, peer = srvI, cliI
		}
		down := e.server != nil && e.server.crashed.ok() || e.server == nil && op.c.crashed.ok()
		if down {
			continue
		}
		// the end of the stream
		checked("P12")
		if !e.shutM.ok() {
			if err := e.errFn(); err != nil || len(own) > 0 {
				bad("P12", "channel-open", "%s %s: the stream has ended (%v), its receive channel is open", op, e.who, err)
			}
		} else {
			if e.errShut == nil {
				bad("P12", "no-cause", "%s %s: the receive channel is closed, Err is nil", op, e.who)
			} else {
				ok := false
				got := wireCause(e.errShut)
				for _, c := range append(append([]*strClose(nil), own...), peer...) {
					ok = ok || c.start.seq < e.shutM.seq && wireCause(c.cause) == got
				}
				if !ok {
					bad("P12", "wrong-cause", "%s %s: ended with %q, which neither side gave (own %v, peer %v)", op, e.who, got, causes(own), causes(peer))
				}
			}
			if err := e.errFn(); wireCause(err) != wireCause(e.errShut) {
				bad("P12", "cause-changed", "%s %s: Err was %v, is %v", op, e.who, e.errShut, err)
			}
		}
		// closing takes no longer than the pending sends
		for _, c := range e.closes {
			if !c.end.ok() || c.kind == "cancel" || c.kind == "return" {
				continue
			}
			checked("P03")
			if d := idleSince(c.start, c.end) - w.paused[e.node] - so.maxTO; d > eps+(c.end.busy-c.start.busy) {
				badk("P03 P12", "close-late", keyIf(w.connecting(e.node, c.start), keyNats), "%s %s: close took %v, sends may take %v", op, e.who, idleSince(c.start, c.end), so.maxTO)
			}
		}
		// what ends the stream on this side ends it soon
		for _, c := range append(e.initiated(), &strClose{kind: "context ended", start: e.ctxEnd}) {
			if !c.start.ok() || c.kind != "context ended" && c.kind != "client closed" && c.kind != "server closed" && c.kind != "cancel" || e.slow || e.abandon || !e.opened.ok() {
				continue
			}
			at := c.start
			if e.opened.seq > at.seq {
				at = e.opened
			}
			checked("P12")
			if e.shutM.ok() && e.shutM.seq < at.seq {
				continue // it had ended before
			}
			// no longer than what is being sent; at once when nothing is
			wait := so.maxTO + e.sto
			if w.fabric == fabricSim && w.net.slowDen == 0 && w.mw == nil && !e.sending(at, e.shutM) {
				wait = 0
			}
			if d := idleSince(at, e.shutM) - w.paused[e.node] - wait; !e.shutM.ok() || d > eps+e.shutM.busy-at.busy {
				props := "P12"
				if c.kind == "server closed" {
					props = "P12 P13"
				}
				badk(props, "end-late", keyIf(w.connecting(e.node, at), keyNats), "%s %s: %s at %v, its receive channel is closed at %v only", op, e.who, c.kind, at.t, e.shutM.t)
			}
		}
		for _, m := range e.sends {
			w.checkSend(so, e, m, own, peer, first)
		}
		w.checkMangled(so, e, own, peer)
		// order of each sender's acknowledged messages
		last := map[int]*strMsg{}
		for _, m := range e.recvd {
			if m.from.op != so || m.err != nil || !m.end.ok() || m.retried {
				continue
			}
			checked("P11")
			if l := last[m.sender]; l != nil && l.start.seq > m.end.seq {
				bad("P11", "reordered", "%s %s: message %d arrived after %d, which was sent later", op, e.who, m.id, l.id)
			}
			last[m.sender] = m
		}
	}
	// both sides agree on the cause when only one of them ended the stream
	if len(ends) == 2 && ends[0].shutM.ok() && ends[1].shutM.ok() {
		before := func(l []*strClose, m stamp) bool {
			for _, c := range l {
				if c.start.seq < m.seq {
					return true
				}
			}
			return false
		}
		c0, c1 := ends[0], ends[1]
		if !before(cliI, c0.shutM) && !before(srvI, c1.shutM) {
			bad("P12", "ended-by-nobody", "%s: both ends closed, nobody closed it", op)
		}
		if before(cliI, c0.shutM) != before(srvI, c1.shutM) && before(cliI, c1.shutM) != before(srvI, c0.shutM) {
			checked("P12")
			if wireCause(c0.errShut) != wireCause(c1.errShut) {
				bad("P12", "cause-differs", "%s: client ended with %q, server with %q", op, wireCause(c0.errShut), wireCause(c1.errShut))
			}
		}
	}
	// a server learns that its stream never came to be for the client
	if op.err != nil && op.end.ok() && !w.lossy && len(w.paused) == 0 && !w.slowCli && !w.net.congested && !op.pubFail && !op.unsent {
		for _, e := range so.srvs {
			if e.server.crashed.ok() || !e.opened.ok() {
				continue
			}
			at := op.end
			if e.opened.seq > at.seq {
				at = e.opened
			}
			lim := w.net.latBound() + 5*ms + at.busy
			if e.shutM.ok() {
				lim += e.shutM.busy - at.busy
			}
			if so.cli.sto <= lim {
				continue
			}
			own := false
			for _, c := range e.initiated() {
				own = own || c.start.t <= at.t+lim
			}
			if own {
				continue
			}
			checked("P12")
			if !e.shutM.ok() || !e.slow && !e.abandon && idleSince(at, e.shutM) > lim {
				bad("P12 P15", "orphan-stream", "%s failed with %v, %s has a stream of it and is never told", op, op.err, e.who)
			}
		}
	}
	// the peer learns of the end
	if !w.lossy && len(ends) == 2 && len(w.paused) == 0 && !w.slowCli && !w.net.congested {
		for i, e := range ends {
			p := ends[1-i]
			pdown := op.c.crashed
			if p.server != nil {
				pdown = p.server.crashed
			}
			if !e.shutM.ok() || pdown.ok() {
				continue
			}
			at := e.shutM
			if p.opened.seq > at.seq {
				at = p.opened
			}
			lim := w.net.latBound() + 5*ms + at.busy
			if p.shutM.ok() {
				lim += p.shutM.busy - at.busy
			}
			if e.sto <= lim { // the news may arrive too late to count
				continue
			}
			own := false // it may be closing itself, which waits for its sends
			for _, c := range p.initiated() {
				own = own || c.start.t <= at.t+lim
			}
			if own {
				continue
			}
			checked("P12")
			if !p.shutM.ok() {
				bad("P12", "peer-not-told", "%s: %s has ended, %s never learns of it", op, e.who, p.who)
			} else if d := idleSince(at, p.shutM); !p.slow && !p.abandon && d > lim {
				bad("P12", "peer-not-told", "%s: %s learns %v later that %s has ended", op, p.who, d, e.who)
			}
		}
	}
}

// checkMangled: a message which cannot be decoded ends the stream it came on.
func (w *world) checkMangled(so *strOp, e *strEnd, own, peer []*strClose) {
	for _, p := range so.ends() {
		if (p.server == nil) == (e.server == nil) {
			continue
		}
		for _, m := range p.sends {
			if len(m.mangled) == 0 || m.retried || len(m.tries) > 1 {
				continue
			}
			checked("P18")
			if len(m.got) > 0 {
				bad("P18", "ran-malformed", "%s %s received message %d, which had been mangled", so, e.who, m.id)
			}
			if m.err == nil && m.end.ok() {
				bad("P18 P11", "acked-malformed", "%s %s: send of %d succeeded, the message had been mangled", so, p.who, m.id)
			}
			if w.lossy || len(w.paused) > 0 || w.slowCli || w.net.congested || !e.opened.ok() {
				continue
			}
			for _, r := range m.reached {
				at := r.at
				if e.opened.seq > at.seq {
					at = e.opened
				}
				if r.node != e.node || at.t+5*ms+at.busy-m.start.busy > m.start.t+m.timeout || e.shutM.ok() && e.shutM.seq < at.seq {
					continue
				}
				checked("P18")
				if d := idleSince(at, e.shutM) - so.maxTO - e.sto; !e.shutM.ok() || !e.slow && !e.abandon && d > eps+e.shutM.busy-at.busy {
					bad("P18", "malformed-ignored", "%s %s: message %d arrived mangled at %v, the stream ended at %v", so, e.who, m.id, r.at.t, e.shutM.t)
				}
				if !e.shutM.ok() || wireCause(e.errShut) == wireCause(errMalformed) {
					continue
				}
				due := false
				for _, c := range append(slices.Clone(own), peer...) {
					due = due || wireCause(c.cause) == wireCause(e.errShut) && c.start.t <= at.t+5*ms+c.start.busy-at.busy
				}
				if !due {
					bad("P18", "malformed-no-cause", "%s %s: message %d arrived mangled at %v, the stream ended later with %v", so, e.who, m.id, r.at.t, e.errShut)
				}
			}
		}
	}
}

func causes(l []*strClose) (r []string) {
	for _, c := range l {
		r = append(r, c.kind+" "+wireCause(c.cause))
	}
	return
}

func (w *world) checkSend(so *strOp, e *strEnd, m *strMsg, own, peer []*strClose, first stamp) {
	op := so.callOp
	checked("P03")
	if !m.end.ok() {
		bad("P03", "send-never-ended", "%s %s: send of %d has not ended", op, e.who, m.id)
		return
	}
	if m.retried {
		// its attempts each have their time; the rest is for checkTries
		for k, t := range m.tries {
			lim := t.timeout
			if lim == 0 {
				lim = m.timeout
			}
			if d := idleSince(t.start, t.end) - w.paused[e.node] - lim; d > eps+t.end.busy-t.start.busy {
				bad("P03 P17", "send-late", "%s %s: attempt %d to send %d took %v, its timeout is %v", op, e.who, k+1, m.id, idleSince(t.start, t.end), lim)
			}
		}
		if m.err != nil {
			return
		}
	}
	busy := m.end.busy - m.start.busy
	if d := idleSince(m.start, m.end) - w.paused[e.node] - m.timeout; d > eps+busy && !m.retried {
		badk("P03", "send-late", keyIf(w.connecting(e.node, m.start), keyNats), "%s %s: send of %d took %v, its timeout is %v", op, e.who, m.id, idleSince(m.start, m.end), m.timeout)
	}
	if e.shutM.ok() && m.end.seq > e.shutM.seq && !m.retried {
		at := e.shutM
		if m.start.seq > at.seq {
			at = m.start
		}
		if d := idleSince(at, m.end) - w.paused[e.node]; d > eps {
			bad("P03 P12", "send-after-close-late", "%s %s: send of %d ended %v after the stream", op, e.who, m.id, d)
		}
	}
	checked("P11")
	if m.unser {
		ended := false
		for _, c := range append(append([]*strClose(nil), own...), peer...) {
			ended = ended || c.start.seq < m.end.seq && wireCause(c.cause) == wireCause(m.err)
		}
		var pe psrpc.Error
		if m.err == nil || len(m.got) > 0 {
			bad("P11 P18", "sent-unserializable", "%s %s: send of %d, which cannot be serialized: %v, delivered %d times", op, e.who, m.id, m.err, len(m.got))
		} else if !ended && w.mw == nil && !(errors.As(m.err, &pe) && pe.Code() == psrpc.MalformedRequest) {
			bad("P11 P18", "unserializable-wrong-error", "%s %s: send of %d, which cannot be serialized, failed with %v", op, e.who, m.id, m.err)
		}
		return
	}
	if m.err == nil {
		if e.shutM.ok() && m.start.seq > e.shutM.seq {
			bad("P12", "sent-on-closed", "%s %s: send of %d succeeded although the stream had ended", op, e.who, m.id)
		}
		gone := true // the receiver crashed before it could be asked what it had
		for _, p := range so.ends() {
			if (p.server == nil) == (e.server == nil) {
				continue
			}
			down := p.server != nil && p.server.crashed.ok() || p.server == nil && op.c.crashed.ok()
			if !down && p.shutM.ok() {
				gone = false
			}
		}
		if len(m.got) == 0 && !gone {
			bad("P11", "acked-not-delivered", "%s %s: send of %d succeeded, its peer never got it", op, e.who, m.id)
		}
		return
	}
	// why it failed
	got := wireCause(m.err)
	ended := false
	for _, c := range append(append([]*strClose(nil), own...), peer...) {
		ended = ended || c.start.seq < m.end.seq && wireCause(c.cause) == got
	}
	if m.pubFail && !ended && w.mw == nil {
		checked("P03")
		if m.err.Error() != errSimPublish.Error() {
			bad("P03", "send-error-hidden", "%s %s: send of %d failed with %v, the transport had reported %v", op, e.who, m.id, m.err, errSimPublish)
		}
	}
	switch {
	case got == wireCause(psrpc.ErrRequestTimedOut):
		if !ended && m.end.t-m.start.t < m.timeout {
			bad("P03", "timeout-early", "%s %s: send of %d timed out after %v, its timeout is %v", op, e.who, m.id, m.end.t-m.start.t, m.timeout)
		}
	case w.ctxErrs() && got == "internal|"+context.DeadlineExceeded.Error():
		// it could not be published in time
		if !ended && op.ctxTO == 0 && m.end.t-m.start.t < m.timeout {
			bad("P03", "timeout-early", "%s %s: send of %d timed out after %v, its timeout is %v", op, e.who, m.id, m.end.t-m.start.t, m.timeout)
		}
	case w.ctxErrs() && got == "internal|"+context.Canceled.Error() && anyBefore(m.end, own, peer):
	case m.err.Error() == errSimPublish.Error():
		if w.net.pubErrDen == 0 {
			bad("P03", "bogus-internal", "%s %s: send of %d: %v, but no publish fails", op, e.who, m.id, m.err)
		}
	default:
		if !ended {
			bad("P12", "send-wrong-error", "%s %s: send of %d failed with %q, which neither side gave (own %v, peer %v)", op, e.who, m.id, got, causes(own), causes(peer))
		}
	}
	// a send on a stream nothing disturbs succeeds
	if w.lossy || len(w.paused) > 0 || first.ok() && first.seq < m.end.seq || op.c.crashed.ok() {
		return
	}
	lat := w.net.latBound()
	if 2*lat+busy+5*ms > m.timeout {
		return
	}
	for _, p := range so.ends() {
		if (p.server == nil) == (e.server == nil) {
			continue
		}
		if len(e.sends) > p.size {
			return
		}
		if p.server != nil && (p.server.closing.ok() && p.server.closing.seq < m.end.seq) {
			return
		}
		if p.server == nil && op.c.closing.ok() && op.c.closing.seq < m.end.seq {
			return
		}
		checked("P04")
		if w.undisturbedStream(so) {
			bad("P11 P04", "send-failed", "%s %s: send of %d failed with %v on an undisturbed stream", op, e.who, m.id, m.err)
		}
	}
}

// undisturbedStream: nothing of this run may have kept the messages of a stream waiting.
func (w *world) undisturbedStream(so *strOp) bool {
	return !w.slowCli && !w.net.congested
}

func anyBefore(at stamp, l ...[]*strClose) bool {
	for _, cs := range l {
		for _, c := range cs {
			if c.start.seq < at.seq {
				return true
			}
		}
	}
	return false
}

// ownTopic is a topic of one server, for the methods which only one may serve.
func ownTopic(topics []string, s *snode) string {
	return fmt.Sprintf("%s.%d", topics[0], s.idx)
}
