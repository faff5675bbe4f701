package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/livekit/psrpc"
)

func init() {
	scenario(1, "calls", func(e *env) { runCalls(e, fabricSim) })
	scenario(5, "calls over the local bus", func(e *env) { runCalls(e, fabricLocal) })
	scenario(10, "calls over the Redis bus", func(e *env) { runCalls(e, fabricRedis) })
	scenario(11, "calls over the NATS bus", func(e *env) { runCalls(e, fabricNats) })
	scenario(14, "calls with middleware", func(e *env) { e.mw = true; runCalls(e, fabricSim) })
}

var topicPool = []string{
	"a", "b", "A", "a.b", "a|b", "b|a", "a_b", "ü", "u+00fc", "u00fc", "软件", "🚀", "U+0001f680", "a b", "Q", "REQ", "RES", "STR", "TPlain", ".",
	"*", ">", "x", "1", "a.", ".a", "CLAIM", "RCLAIM", strings.Repeat("long", 70), "\u0130", "\ufffd", "a\x00b", "\u0161", "a\u0131", "\U00010061", "\U0001f600", "\U0002f600", "\uf600",
}

// chaosPlan is which kinds of trouble a run has.
type chaosPlan struct {
	quiet    bool
	loss     bool
	spikes   bool
	pubErr   bool
	slowPub  bool
	pause    bool
	cut      bool
	crash    bool
	shutdown bool
	kill     bool
	churn    bool
	addSrv   bool
	cliClose bool
	skew     bool
	jump     bool
	n        int
}

func (e *env) plan() chaosPlan {
	c := e.plan0()
	switch e.focus {
	case 1: // publishes which fail, or seem to
		if e.p(1, 2) {
			c.quiet, c.pubErr, c.loss = false, true, false
			if e.p(2, 3) {
				c.pause, c.cut, c.crash, c.slowPub = false, false, false, false
			}
		}
	case 13: // what is under way when a server shuts down
		if e.p(4, 5) {
			c.shutdown = true
			c.n = max(c.n, 3)
		}
		if e.p(1, 2) {
			c.pause, c.cut, c.crash, c.addSrv = false, false, false, false
		}
	}
	return c
}

func (w *world) drawUpsets(e *env, c chaosPlan) {
	if e.p(1, 8) || e.focus == 23 && e.p(1, 2) {
		w.upsets = new([]*upsetOp)
	}
}

func (e *env) plan0() chaosPlan {
	var c chaosPlan
	c.churn = e.p(1, 2)
	c.addSrv = e.p(1, 3)
	if e.p(2, 5) {
		c.quiet = true
		c.shutdown = e.p(1, 3)
		c.kill = e.p(1, 4)
		c.cliClose = e.p(1, 6)
		c.n = e.between(0, 5)
		return c
	}
	c.loss = e.p(1, 2)
	c.spikes = e.p(1, 3)
	c.pubErr = e.p(1, 4)
	c.pause = e.p(1, 3)
	c.cut = e.p(1, 3)
	c.crash = e.p(1, 3)
	c.shutdown = e.p(1, 4)
	c.kill = e.p(1, 4)
	c.cliClose = e.p(1, 5)
	c.skew = e.p(1, 6)
	c.slowPub = e.p(1, 5)
	c.n = e.between(1, 8)
	return c
}

func (e *env) network(c chaosPlan) *simnet {
	n := newSimnet()
	n.byServer = e.p(1, 3)
	n.drain = e.p(1, 2)
	switch e.n(6) {
	case 0:
	case 1:
		n.latMax = ms
	case 2:
		n.latMin, n.latMax = ms, 5*ms
	case 3:
		n.latMax = 30 * ms
	case 4:
		n.latMin, n.latMax = 10*ms, 10*ms
	case 5:
		n.latMin, n.latMax = 5*ms, 80*ms
	}
	if c.loss {
		n.lossNum, n.lossDen = 1, cpick(e.cfgRng, 3, 10, 40)
	}
	if c.spikes {
		n.spikeDen, n.spikeMax = cpick(e.cfgRng, 3, 10, 40), cpick(e.cfgRng, 20*ms, 300*ms, 3000*ms)
	}
	if c.pubErr {
		n.pubErrDen = cpick(e.cfgRng, 5, 20)
		if e.focus == 1 {
			n.pubErrDen = cpick(e.cfgRng, 2, 4, 20)
		}
	}
	if c.slowPub || e.focus == 3 && !c.quiet && e.p(1, 2) {
		n.slowDen, n.slowMax = cpick(e.cfgRng, 2, 5, 20), cpick(e.cfgRng, 5*ms, 50*ms, 500*ms)
	}
	return n
}

type callMix struct {
	multi  int // of 100
	aff    int
	topics []string
	wantTO bool
	behs   bool
}

// on adapts the plan to what the fabric can suffer.
func (c chaosPlan) on(e *env, fabric int) chaosPlan {
	if fabric != fabricSim {
		c.loss, c.spikes, c.pubErr, c.slowPub, c.cut, c.crash, c.skew, c.pause = false, false, false, false, false, false, false, false
	}
	return c
}

// netFor is the simulated network, or what stands in for it on a real bus.
func (e *env) netFor(c chaosPlan, fabric int) *simnet {
	n := e.network(c)
	if fabric != fabricSim {
		n.latMin, n.latMax, n.slowDen = 0, 0, 0
	}
	return n
}

func runCalls(e *env, fabric int) {
	c := e.plan().on(e, fabric)
	w := newWorld(e.netFor(c, fabric))
	w.lossy = c.loss || c.pubErr || w.net.slowDen > 0 || c.cut || c.crash || c.skew
	w.useFabric(e, fabric)
	w.svcOpts = append(w.svcOpts, psrpc.WithServerRPCInterceptors(infoInterceptor))
	if e.p(1, 3) {
		w.svcOpts = append(w.svcOpts, psrpc.WithServerChannelSize(cpick(e.cfgRng, 1, 2, 10)))
	}
	mix := callMix{multi: 25, aff: 35, wantTO: e.p(2, 3), behs: e.p(2, 3)}
	switch e.focus {
	case 6:
		mix.aff, mix.multi = 90, 0
		mix.behs = e.p(1, 4)
	case 7:
		mix.multi = 80
	case 1:
		mix.multi = 10
		mix.aff = 35 + e.n(2)*30
	}
	if e.mw {
		w.useMiddleware(e)
		if e.focus == 18 || e.focus == 0 && e.p(1, 3) {
			w.useNoise(e)
		}
	}
	nt := e.between(1, 4)
	mix.topics = e.topics(nt)
	w.two = e.p(1, 4) || e.focus == 10
	w.drawNaming(e)
	w.drawContexts()
	w.drawUpsets(e, c)
	nSrv, nCli := e.between(1, 4), e.between(1, 3)
	if e.focus == 1 {
		nSrv = max(nSrv, 2)
	}
	if e.focus == 6 && e.p(1, 2) {
		nSrv += 2
	}
	for i := 0; i < nSrv; i++ {
		w.addServer()
	}
	for i := 0; i < nCli; i++ {
		size := cpick(e.cfgRng, 1, 2, 5, 100, 100)
		if e.focus == 3 || e.focus == 6 && e.p(1, 2) {
			size = min(size, 2)
		}
		w.addClient(size, cpick(e.cfgRng, 0, 0, 300*ms, 5000*ms), cpick(e.cfgRng, 0, 0, 0, 50*ms, 400*ms))
	}
	sleep(2 * ms)
	for _, cl := range w.clients {
		w.baseline(cl)
	}
	// topics
	for _, s := range w.servers {
		for _, m := range []string{"TPlain", "TAff", "TAll", "TSingle", "GOne", "2TPlain"} {
			if m[0] == '2' && !w.two {
				continue
			}
			for range mix.topics {
				if WP(1, 2) {
					w.registerSome(s, m, mix.topics)
				}
			}
		}
		s.base = 0
	}
	if c.skew {
		for _, s := range w.servers {
			if FP(1, 2) {
				d := time.Duration(F(2000)-1000) * ms
				w.skewed = true
				runtime.VerifSetSkew(s.node, int64(d))
				count("fault:clock_skew")
			}
		}
	}
	sleep(time.Duration(W(20)) * ms)

	stop := false
	chaosDone := newGroup()
	if c.n > 0 {
		chaosDone.Go(0, func() { w.chaos(e, c, mix, &stop) })
	}
	chaosDone.Go(0, func() { w.roughen(&stop) })
	if noisy {
		gap := cpick(e.cfgRng, 2*ms, 20*ms, 100*ms)
		chaosDone.Go(0, func() { w.noise(gap, &stop) })
	}
	nOps := e.between(3, 30)
	if e.p(1, 5) {
		nOps = e.between(30, 80)
	}
	gap := cpick(e.cfgRng, 0, 0, 3, 20, 100)
	for i := 0; i < nOps; i++ {
		op := w.genOp(e, mix)
		if op != nil {
			goNode(op.c.node, op.run)
		}
		if gap > 0 {
			sleep(time.Duration(W(gap)) * ms)
		} else if WP(1, 3) {
			sleep(time.Duration(W(3000)) * time.Microsecond)
		}
	}
	w.waitOps(40 * time.Second)
	stop = true
	chaosDone.Wait(20 * time.Second)
	w.waitOps(20 * time.Second)
	w.heal()
	sleep(6 * time.Second)
	w.probe(mix.topics)
	w.waitOps(20 * time.Second)
	sleep(6 * time.Second)
	w.checkIdleState()
	if e.focus == 15 || e.p(1, 4) {
		w.checkIdleServers()
	}
	w.closeAll(e)
	sleep(10 * time.Second)
	w.checkClosedState()
	w.checkFabric()
	w.checkCalls()
	for _, op := range w.opList {
		w.checkSelection(op)
	}
	w.checkShutdown()
	w.checkUpsets()
	w.checkMw()
	countN("ops", len(w.opList))
}

func (w *world) baseline(c *cnode) {
	c.base = runtime.VerifNodeGoroutines(c.node)
	c.baseSt = c.stateSize()
}

func (c *cnode) stateSize() int {
	n := stateSize(c.cli)
	if c.cli2 != nil {
		n += stateSize(c.cli2)
	}
	return n
}

// topics draws a set of topics: any, or ones that are easily confused.
func (e *env) topics(n int) (r []string) {
	if !e.p(1, 2) {
		for range n {
			r = append(r, topicPool[e.n(len(topicPool))])
		}
		return r
	}
	x, y := "a", cpick(e.cfgRng, "b", "a", "A", "ä", "TPlain")
	switch e.n(6) {
	case 0, 1, 2: // parts that flow into each other
		sep := cpick(e.cfgRng, ".", "|", "-", "_", "", "+", " ", "/", "u+002e", "\x00", "\x1e")
		r = []string{x, y, x + sep + y, y + sep + x}
	case 3: // escapes spelled out
		c := cpick(e.cfgRng, 'ä', '.', '|', '-', '软', '🚀', '*')
		r = []string{string(c), fmt.Sprintf("u+%04x", c), fmt.Sprintf("u%04x", c), fmt.Sprintf("U+%08x", c)}
	case 4:
		r = []string{"." + x, x + ".", x + "." + x, x}
	case 5: // characters whose numbers differ in the high digits, or in the case of digits
		c := cpick(e.cfgRng, rune(0x61), 0xf6, 0x161, 0x4e61, 0xf600, 0xfffd)
		for _, d := range []rune{0, 0x100, 0x10000, 0x20000, 0x100000} {
			if d == 0x100 && c == 0xfffd {
				continue
			}
			r = append(r, string(c+d))
		}
	}
	for len(r) > max(n, 2) {
		i := e.n(len(r))
		r = append(r[:i], r[i+1:]...)
	}
	return r
}

// registerSome registers a topic handler, unless the server has it already.
func (w *world) registerSome(s *snode, m string, topics []string) *reg {
	t := []string{topics[W(len(topics))]}
	if m == "TAff" {
		t = append(t, topics[W(len(topics))])
	}
	if s.find(m, t) != nil {
		return nil
	}
	if m == "GOne" { // single registration of one member of the group
		t[0] = "g" + t[0]
		if s.find(m, t) != nil {
			return nil
		}
	}
	return s.register(m, t...)
}

func (w *world) aliveServers() (r []*snode) {
	for _, s := range w.servers {
		if s.alive() {
			r = append(r, s)
		}
	}
	return
}

func (w *world) aliveClients() (r []*cnode) {
	for _, c := range w.clients {
		if c.alive() {
			r = append(r, c)
		}
	}
	return
}

// genOp draws a call.
func (w *world) genOp(e *env, mix callMix) *callOp {
	cl := w.clients
	if !WP(1, 20) {
		cl = w.aliveClients()
	}
	if len(cl) == 0 {
		return nil
	}
	c := cl[W(len(cl))]
	if c.err != nil || c.crashed.ok() {
		return nil
	}
	t := func() string { return mix.topics[W(len(mix.topics))] }
	var op *callOp
	k := W(100)
	switch {
	case k < mix.multi:
		if W(2) == 0 {
			op = w.newOp(c, "All")
		} else {
			op = w.newOp(c, "TAll", t())
		}
	case k < mix.multi+mix.aff:
		switch W(5) {
		case 0, 1:
			op = w.newOp(c, "Aff")
		case 2, 3:
			op = w.newOp(c, "TAff", t(), t())
		case 4:
			op = w.newOp(c, pick("Plain", "TPlain"))
			if op.method == "TPlain" {
				op.topic = []string{t()}
			}
		}
	default:
		switch W(5) {
		case 0, 1:
			op = w.newOp(c, "Plain")
		case 2:
			op = w.newOp(c, "TPlain", t())
		case 3:
			op = w.newOp(c, "TSingle", t())
		case 4:
			op = w.newOp(c, "GOne", "g"+t())
		}
	}
	if w.two && c.cli2 != nil && WP(1, 3) {
		switch op.method {
		case "Plain", "All", "TPlain":
			op.method = "2" + op.method
		}
	}
	op.drawOptions(e, mix)
	return op
}

func (op *callOp) drawOptions(e *env, mix callMix) {
	w := op.c.w
	if WP(1, 3) {
		op.drawMetadata()
	}
	if WP(1, 4) {
		n := 1 + W(200)
		if WP(1, 8) {
			n = 1 + W(20000)
			count("event:large_message")
		}
		op.req.Blob = make([]byte, n)
		for i := range op.req.Blob {
			op.req.Blob[i] = byte(i * int(op.id))
		}
	}
	if mix.wantTO {
		if WP(1, 2) {
			op.timeout = pick(1000*ms, 50*ms, 100*ms, 200*ms, 400*ms, 2500*ms, 6000*ms, 5*ms)
		}
		if WP(1, 4) {
			op.ctxTO = pick(1000*ms, 30*ms, 150*ms, 500*ms, 3000*ms)
		}
		if WP(1, 6) {
			op.cancelAt = time.Duration(1+W(400)) * ms / time.Duration(pick(1, 4, 20))
		}
	}
	if isAffMethod(op.method) || isClaimMethod(op.method) && WP(1, 5) {
		for _, s := range w.servers {
			if WP(3, 4) {
				op.affs[s.id] = pick[float32](0.5, 0.1, 0.9, 1, -1, 0, 0.25, 5, 0.5, 0.50001, 1e-6, -1e-6, 1e6)
			}
		}
		if WP(1, 2) {
			so := &psrpc.SelectionOpts{}
			so.AcceptFirstAvailable = WP(1, 5)
			if WP(1, 2) {
				so.AffinityTimeout = pick(100*ms, 10*ms, 500*ms, 50*ms, 1500*ms)
			}
			if WP(1, 2) {
				so.ShortCircuitTimeout = pick(50*ms, 5*ms, 200*ms, 1000*ms)
			}
			if WP(1, 3) {
				so.MinimumAffinity = pick[float32](0.5, 0.2, 1, 0.05)
			}
			if WP(1, 3) {
				so.MaximumAffinity = pick[float32](0.9, 0.5, 5)
			}
			op.selFunc = WP(1, 5)
			op.sel = so
		}
	}
	if mix.behs {
		if WP(1, 2) {
			op.beh.delay = time.Duration(W(pick(10, 100, 1000))) * ms
		}
		if WP(1, 3) {
			op.beh.kind = pick(bPsrpcErr, bGrpcErr, bPlainErr, bWrappedErr, bNil, bWaitCtx)
			op.beh.code = errCodes[W(len(errCodes))]
			if op.beh.kind != bGrpcErr && WP(1, 4) {
				op.beh.code = pick(psrpc.NotAcceptable, psrpc.UnprocessableEntity, psrpc.UpstreamServerError, psrpc.UpstreamClientError, psrpc.MalformedRequest, psrpc.MalformedResponse)
			}
			op.beh.msg = pick("boom", "a longer message: with punctuation", "ünïcode", "")
			op.beh.det = W(3)
		}
	}
	if op.multi {
		op.drain = 0
		if WP(1, 10) {
			op.drain = 1
			op.drainMax = pick(20, 20, 200)
			w.slowCli = true
		}
	}
	if w.mw != nil {
		w.mw.draw(op)
	}
}

func (w *world) waitOps(d time.Duration) {
	waitUntil(d, func() bool {
		for _, op := range w.opList {
			if op.start.ok() && !op.done && !op.c.crashed.ok() {
				return false
			}
		}
		return true
	})
}

// chaos makes trouble while the calls run.
func (w *world) chaos(e *env, c chaosPlan, mix callMix, stop *bool) {
	var acts []func()
	add := func(on bool, f func()) {
		if on {
			acts = append(acts, f)
		}
	}
	anyNode := func() (uint32, string) {
		s, cl := w.aliveServers(), w.aliveClients()
		k := F(len(s) + len(cl))
		if k < len(s) {
			return s[k].node, s[k].id
		}
		if k-len(s) < len(cl) {
			return cl[k-len(s)].node, cl[k-len(s)].id
		}
		return 0, ""
	}
	// volley starts calls or streams which are under way when something happens.
	volley := func() {
		if p := WP(1, 3); !p && (e.focus != 13 || WP(1, 2)) {
			return
		}
		count("event:volley")
		if e.focus == 13 && WP(1, 3) {
			// calls which arrive all the while
			m := mix
			m.multi, m.behs = 60, false
			gap := pick(0, 10, 50, 400)
			goNode(0, func() {
				for i := 8 + W(16); i > 0; i-- {
					if op := w.genOp(e, m); op != nil {
						goNode(op.c.node, op.run)
					}
					sleep(time.Duration(W(gap)) * time.Microsecond)
				}
			})
			sleep(time.Duration(W(pick(500, 3000))) * time.Microsecond)
			return
		}
		for i := 1 + W(5); i > 0; i-- {
			if w.streams != nil && WP(2, 3) {
				if op := w.genStream(e, mix); op != nil {
					w.streams.Go(op.c.node, op.runClient)
				}
			} else if op := w.genOp(e, mix); op != nil {
				goNode(op.c.node, op.run)
			}
			if WP(1, 3) {
				sleep(time.Duration(W(1000)) * time.Microsecond)
			}
		}
		sleep(time.Duration(W(pick(200, 2000, 20000))) * time.Microsecond)
	}
	add(c.pause, func() {
		n, id := anyNode()
		if n == 0 {
			return
		}
		d := time.Duration(1+F(800)) * ms
		w.paused[n] += d
		count("fault:node_paused")
		logf("pause %s for %v", id, d)
		runtime.VerifPauseNode(n, int64(d))
	})
	add(c.cut, func() {
		n, id := anyNode()
		if n == 0 {
			return
		}
		d := time.Duration(1+F(1500)) * ms
		count("fault:node_cut_off")
		logf("cut %s off for %v", id, d)
		w.net.cut[n] = true
		time.AfterFunc(d, func() { delete(w.net.cut, n) })
	})
	add(c.crash, func() {
		if s := w.aliveServers(); len(s) > 1 && F(3) != 0 {
			v := s[F(len(s))]
			count("fault:server_crash")
			v.crash()
			if F(2) == 0 {
				sleep(time.Duration(F(500)) * ms)
				n := w.addServerNamed(v.id)
				for _, r := range v.regs {
					if r.unDone == v.crashed && r.topic != nil && r.err == nil && F(3) > 0 {
						n.register(r.method, r.topic...)
					}
				}
			}
		} else if cl := w.aliveClients(); len(cl) > 1 {
			v := cl[F(len(cl))]
			count("fault:client_crash")
			v.crashed = mark()
			w.net.crash(v.node)
			if F(2) == 0 {
				sleep(time.Duration(F(300)) * ms)
				n := w.addClientNamed(v.id, v.size, v.timeout, v.selTO)
				sleep(ms)
				_ = n
			}
		}
	})
	add(c.shutdown, func() {
		if s := w.aliveServers(); len(s) > 1 {
			v := s[F(len(s))]
			volley()
			count("event:shutdown")
			goNode(0, func() { v.shut(true) })
			if F(4) == 0 {
				// somebody does not want to wait for it
				sleep(time.Duration(F(100)) * ms / time.Duration(1+F(30)))
				if w.upsets != nil && v.closing.ok() && !v.closed.ok() && !v.crashed.ok() {
					u := &upsetOp{what: v.id + " is killed while it shuts down", start: mark(), node: v.node, crashed: &v.crashed}
					*w.upsets = append(*w.upsets, u)
					goNode(0, func() { v.shut(false); u.end = mark() })
				}
			}
		}
	})
	add(c.kill, func() {
		if s := w.aliveServers(); len(s) > 1 {
			v := s[F(len(s))]
			volley()
			count("event:kill")
			goNode(0, func() { v.shut(false) })
		}
	})
	add(c.cliClose, func() {
		if s := w.aliveClients(); len(s) > 1 {
			v := s[F(len(s))]
			volley()
			count("event:client_close")
			goNode(0, v.close)
		}
	})
	add(c.addSrv, func() {
		if len(w.servers) < 7 {
			s := w.addServer()
			for _, m := range []string{"TPlain", "TAff", "TAll", "TSingle"} {
				if F(2) == 0 {
					w.registerSome(s, m, mix.topics)
				}
			}
		}
	})
	add(c.churn, func() {
		s := w.aliveServers()
		if len(s) == 0 {
			return
		}
		v := s[F(len(s))]
		if F(2) == 0 {
			w.registerSome(v, pick("TPlain", "TAff", "TAll", "TSingle", "GOne"), mix.topics)
			return
		}
		var rs []*reg
		for _, r := range v.regs {
			if r.topic != nil && r.err == nil && r.done.ok() && !r.unStart.ok() {
				rs = append(rs, r)
			}
		}
		if len(rs) > 0 {
			volley()
			if r := rs[F(len(rs))]; !r.unStart.ok() || v.shuttingDown(r) {
				count("event:deregister")
				v.deregister(r)
			}
		}
	})
	if len(acts) == 0 {
		return
	}
	for i := 0; i < c.n && !*stop; i++ {
		sleep(time.Duration(F(300)) * ms / time.Duration(1+F(30)))
		if *stop {
			return
		}
		acts[F(len(acts))]()
	}
}

func (w *world) addServerNamed(id string) *snode {
	s := &snode{w: w, idx: len(w.servers), node: w.node(), id: id}
	w.servers = append(w.servers, s)
	w.startServer(s, w.conn(s.node))
	return s
}

func (w *world) addClientNamed(id string, size int, timeout, selTO time.Duration) *cnode {
	c := &cnode{w: w, idx: len(w.clients), node: w.node(), size: size, timeout: timeout, selTO: selTO, id: id}
	w.startClient(c, w.conn(c.node))
	sleep(ms)
	w.baseline(c)
	w.clients = append(w.clients, c)
	return c
}

// heal ends all trouble.
func (w *world) heal() {
	w.net.noFaults = true
	clear(w.net.cut)
	for _, s := range w.servers {
		runtime.VerifSetSkew(s.node, 0)
	}
	w.calm()
	logf("healed")
}

// probe calls every method once from every surviving client (P04).
func (w *world) probe(topics []string) {
	for _, c := range w.aliveClients() {
		for _, m := range []string{"Plain", "Aff", "All", "TPlain", "TSingle"} {
			var t []string
			if m[0] == 'T' {
				t = []string{topics[0]}
			}
			op := w.newOp(c, m, t...)
			op.probe = true
			op.timeout = 2 * time.Second
			goNode(c.node, op.run)
			if W(2) == 0 {
				sleep(time.Duration(W(50)) * ms)
			}
		}
	}
	sleep(3 * time.Second)
	for _, op := range w.opList {
		if op.probe {
			checked("P04")
		}
	}
}

// closeAll closes everything that is still up.
func (w *world) closeAll(e *env) {
	g := newGroup()
	for _, c := range w.aliveClients() {
		g.Go(0, c.close)
	}
	for _, s := range w.aliveServers() {
		graceful := WP(2, 3)
		g.Go(0, func() { s.shut(graceful) })
	}
	checked("P23")
	if !g.Wait(30 * time.Second) {
		bad("P23 P13", "close-hangs", "closing everything has not finished after 30s")
	}
}
