package main

import (
	"errors"
	"fmt"
	"runtime"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/livekit/psrpc"
)

func init() {
	scenario(8, "lifecycle", runLife)
}

// lkey is something a server can register.
type lkey struct {
	method string
	topic  string // joined
}

func (k lkey) topics() []string { return strings.Split(k.topic, "\x1f") }
func (k lkey) String() string   { return fmt.Sprintf("%s%q", k.method, k.topics()) }

var grpMethods = []string{"GOne", "GTwo", "GThree"}

// lifeSrv is a server and what it should have registered.
type lifeSrv struct {
	l      *life
	s      *snode
	has    map[lkey]bool
	closed bool
	base   []string // its subscriptions with nothing registered
	gor    int      // its goroutines then
}

// life drives the registration state of servers, and their ends.
type life struct {
	w      *world
	e      *env
	keys   []lkey
	grp    []string // topics of the group
	subs   map[lkey][]string
	gors   map[lkey]int
	srvs   []*lifeSrv
	subErr map[uint32]int // the how manieth next subscribe of the node fails
	fired  map[uint32]int
}

const (
	lReg = iota
	lDereg
	lRegAll
	lDeregAll
	lShut
	lKill
)

type lifeOp struct {
	kind  int
	key   lkey
	topic string
	err   error
	fired bool
	done  bool
}

func (o *lifeOp) String() string {
	var what string
	switch o.kind {
	case lReg:
		what = "register " + o.key.String()
	case lDereg:
		what = "deregister " + o.key.String()
	case lRegAll:
		what = fmt.Sprintf("register group %q", o.topic)
	case lDeregAll:
		what = fmt.Sprintf("deregister group %q", o.topic)
	case lShut:
		what = "shutdown"
	case lKill:
		what = "kill"
	}
	return what
}

// touches is the keys the operation may register or deregister.
func (o *lifeOp) touches() (ks []lkey) {
	switch o.kind {
	case lReg, lDereg:
		ks = append(ks, o.key)
	case lRegAll, lDeregAll:
		for _, m := range grpMethods {
			ks = append(ks, lkey{m, o.topic})
		}
	}
	return
}

// do performs an operation on the server.
func (ls *lifeSrv) do(o *lifeOp) {
	s := ls.s
	switch o.kind {
	case lReg:
		o.err = s.registerRaw(o.key.method, o.key.topics())
	case lDereg:
		s.deregisterRaw(o.key.method, o.key.topics())
	case lRegAll:
		asNode(s.node, func() { o.err = s.srv.RegisterAllGrpTopics(o.topic) })
	case lDeregAll:
		asNode(s.node, func() { s.srv.DeregisterAllGrpTopics(o.topic) })
	case lShut:
		s.shut(true)
	case lKill:
		s.shut(false)
	}
	logf("%s %s: %v", s.id, o, o.err)
	o.done = true
}

// tell keeps the registrations which the oracles of calls look at: begin
// before the operations, the function it returns after they were understood.
func (ls *lifeSrv) tell(ops []*lifeOp) func() {
	s := ls.s
	b0 := mark()
	var during, ended []*reg
	keys := map[lkey]bool{}
	for _, o := range ops {
		for _, k := range o.touches() {
			if !keys[k] {
				r := &reg{s: s, method: k.method, topic: k.topics(), start: b0, forced: true}
				during = append(during, r)
				s.regs = append(s.regs, r)
			}
			keys[k] = true
			if o.kind == lReg || o.kind == lRegAll {
				continue
			}
			for _, r := range s.regs {
				if r.done.ok() && r.method == k.method && topicString(r.topic) == k.topic && !r.unStart.ok() {
					r.unStart, r.forced = b0, true
					ended = append(ended, r)
				}
			}
		}
	}
	return func() {
		b1 := mark()
		for _, r := range ended {
			r.unDone = b1
		}
		for _, r := range during {
			r.done, r.unStart, r.unDone = b1, b1, b1
		}
		for k := range keys {
			open := false
			for _, r := range s.regs {
				open = open || r.method == k.method && topicString(r.topic) == k.topic && !r.unStart.ok()
			}
			if ls.has[k] && !open {
				s.regs = append(s.regs, &reg{s: s, method: k.method, topic: k.topics(), start: b0, done: b1})
			}
		}
	}
}

// fits: the operation with its result is possible in state has/closed; it
// returns the state after it.
func (o *lifeOp) fits(has map[lkey]bool, closed bool) (ok bool, add, del []lkey, closes bool) {
	is := func(ks ...lkey) bool {
		for _, k := range ks {
			if has[k] {
				return true
			}
		}
		return false
	}
	var all []lkey
	for _, m := range grpMethods {
		all = append(all, lkey{m, o.topic})
	}
	switch o.kind {
	case lReg, lRegAll:
		ks := all
		if o.kind == lReg {
			ks = []lkey{o.key}
		}
		switch {
		case closed:
			return errors.Is(o.err, psrpc.ErrServerClosed), nil, nil, false
		case is(ks...):
			// a failing subscription may come first
			return o.err != nil && !errors.Is(o.err, psrpc.ErrServerClosed) && (o.fired || !strings.Contains(o.err.Error(), errSimSubscribe.Error())), nil, nil, false
		case o.fired:
			return o.err != nil && !errors.Is(o.err, psrpc.ErrServerClosed), nil, nil, false
		}
		return o.err == nil, ks, nil, false
	case lDereg:
		return true, nil, []lkey{o.key}, false
	case lDeregAll:
		return true, nil, all, false
	}
	return true, nil, nil, true
}

// explain finds an order of the operations which explains all results and the
// server's state afterwards.
func (ls *lifeSrv) explain(ops []*lifeOp, has map[lkey]bool, closed bool, final func(map[lkey]bool, bool) bool) bool {
	if len(ops) == 0 {
		return final(has, closed)
	}
	for i, o := range ops {
		ok, add, del, closes := o.fits(has, closed)
		if !ok {
			continue
		}
		h := map[lkey]bool{}
		for k := range has {
			h[k] = true
		}
		for _, k := range add {
			h[k] = true
		}
		for _, k := range del {
			delete(h, k)
		}
		if closes {
			clear(h)
		}
		rest := append(append([]*lifeOp(nil), ops[:i]...), ops[i+1:]...)
		if ls.explain(rest, h, closed || closes, final) {
			return true
		}
	}
	return false
}

// subsFor is the subscriptions a server with these registrations has.
func (ls *lifeSrv) subsFor(has map[lkey]bool, closed bool) []string {
	if closed {
		return nil
	}
	r := slices.Clone(ls.base)
	for k := range has {
		r = append(r, ls.l.subs[k]...)
	}
	sort.Strings(r)
	return r
}

func (ls *lifeSrv) subs() []string {
	r := ls.l.w.net.openSubs(ls.s.node)
	sort.Strings(r)
	return r
}

// perform lets operations run at the same time, then compares their results
// and the server's state with the model.
func (ls *lifeSrv) perform(ops []*lifeOp) {
	w := ls.l.w
	id := ls.s.id
	f0 := ls.l.fired[ls.s.node]
	told := ls.tell(ops)
	defer func() { told() }()
	g := newGroup()
	for _, o := range ops {
		g.Go(0, func() { ls.do(o) })
	}
	checked("P14")
	checked("P23")
	if !g.Wait(60 * time.Second) {
		for _, o := range ops {
			if !o.done {
				bad("P23 P14", "operation-hangs", "%s: %s has not returned after 60s", id, o)
			}
		}
		ls.closed = true // leave it alone
		ls.has = map[lkey]bool{}
		return
	}
	if fired := ls.l.fired[ls.s.node] > f0; fired {
		// who was hit shows in the error
		hit := false
		for _, o := range ops {
			if o.kind == lReg || o.kind == lRegAll {
				o.fired = o.err != nil && strings.Contains(o.err.Error(), errSimSubscribe.Error())
				hit = hit || o.fired
			}
		}
		if !hit {
			bad("P14", "failure-swallowed", "%s: a subscription failed during %v, which report %v", id, ops, errsOf(ops))
		}
	}
	delete(ls.l.subErr, ls.s.node)
	sleep(2 * ms)
	now := ls.subs()
	var has map[lkey]bool
	var closed bool
	if ls.explain(ops, ls.has, ls.closed, func(h map[lkey]bool, c bool) bool {
		has, closed = h, c
		return slices.Equal(ls.subsFor(h, c), now)
	}) {
		ls.has, ls.closed = has, closed
	} else if ls.explain(ops, ls.has, ls.closed, func(h map[lkey]bool, c bool) bool {
		has, closed = h, c
		return true
	}) {
		bad("P14 P15", "wrong-subscriptions", "%s: after %v (%v) it holds subscriptions %v, should hold %v", id, ops, errsOf(ops), now, ls.subsFor(has, closed))
		ls.has, ls.closed = has, closed
		ls.broken()
		return
	} else {
		bad("P14", "wrong-result", "%s with %v: %v report %v", id, sortedLKeys(ls.has), ops, errsOf(ops))
		ls.broken()
		return
	}
	// goroutines, when nothing runs there
	if ls.quiet() {
		sleep(20 * ms)
		if ls.quiet() {
			want := ls.gor
			if ls.closed {
				want = 0
			} else {
				for k := range ls.has {
					want += ls.l.gors[k]
				}
			}
			checked("P15")
			if n := runtime.VerifNodeGoroutines(ls.s.node); n != want {
				bad("P15 P14", "wrong-goroutines", "%s: after %v (%v) it runs %d goroutines, should run %d: %v", id, ops, errsOf(ops), n, want, runtime.VerifNodeGoFuncs(ls.s.node))
				ls.broken()
			}
		}
	}
	_ = w
}

// broken: nothing more is to be learned from this server.
func (ls *lifeSrv) broken() { ls.closed = true; ls.has = map[lkey]bool{} }

// quiet: no call is under way that could keep goroutines of the server.
func (ls *lifeSrv) quiet() bool {
	for _, op := range ls.l.w.opList {
		if op.start.ok() && !op.done {
			return false
		}
		for _, hs := range op.starts {
			if hs.s == ls.s && !hs.end.ok() {
				return false
			}
		}
		// others who offered wait for the choice until the request expires
		if op.expiry != 0 && op.start.ok() && now() < op.start.t+op.eff+200*ms {
			return false
		}
	}
	return true
}

func errsOf(ops []*lifeOp) (r []string) {
	for _, o := range ops {
		r = append(r, fmt.Sprint(o.err))
	}
	return
}

func sortedLKeys(m map[lkey]bool) (r []string) {
	for k := range m {
		r = append(r, k.String())
	}
	sort.Strings(r)
	return
}

func runLife(e *env) {
	net := newSimnet()
	net.byServer = e.p(1, 3)
	net.drain = e.p(1, 2)
	net.latMax = cpick(e.cfgRng, 0, ms, 5*ms)
	w := newWorld(net)
	w.svcOpts = append(w.svcOpts, psrpc.WithServerRPCInterceptors(infoInterceptor))
	w.two = e.p(1, 4)
	l := &life{w: w, e: e, subs: map[lkey][]string{}, gors: map[lkey]int{}, subErr: map[uint32]int{}, fired: map[uint32]int{}}
	net.subErr = func(node uint32, ch string) bool {
		if l.subErr[node] > 0 {
			l.subErr[node]--
			if l.subErr[node] == 0 {
				l.fired[node]++
				return true
			}
		}
		return false
	}
	topics := e.topics(e.between(1, 3))
	for i, t := range topics {
		if slices.Contains(topics[:i], t) {
			continue
		}
		for _, m := range []string{"TPlain", "TAll", "TSingle", "TStr"} {
			l.keys = append(l.keys, lkey{m, t})
		}
		l.keys = append(l.keys, lkey{"TAff", t + "\x1f" + topics[0]})
		if w.two {
			l.keys = append(l.keys, lkey{"2TPlain", t})
		}
		for _, m := range grpMethods {
			l.keys = append(l.keys, lkey{m, t})
		}
		l.grp = append(l.grp, t)
	}
	// what one registration takes, from a server that has no other
	ref := w.addServer()
	sleep(20 * ms)
	base, gor := net.openSubs(ref.node), runtime.VerifNodeGoroutines(ref.node)
	for _, k := range l.keys {
		r := ref.register(k.method, k.topics()...)
		if r.err != nil {
			bad("P14 P10", "register-refused", "%s: registering %s fails with %v", ref.id, k, r.err)
			return
		}
		sleep(20 * ms)
		s := net.openSubs(ref.node)
		l.subs[k] = minus(s, base)
		l.gors[k] = runtime.VerifNodeGoroutines(ref.node) - gor
		ref.deregister(r)
		sleep(20 * ms)
		if s := net.openSubs(ref.node); !slices.Equal(s, base) {
			bad("P14 P15", "wrong-subscriptions", "%s: after registering and deregistering %s it holds %v", ref.id, k, minus(s, base))
			return
		}
		checked("P14")
	}
	ref.shut(false)
	sleep(20 * ms)
	// servers and clients; some fail to start
	nSrv := e.between(1, 3)
	for i := 0; i < nSrv; i++ {
		s := l.startServer(fmt.Sprintf("server-%d", i))
		ls := &lifeSrv{l: l, s: s, has: map[lkey]bool{}}
		sleep(ms)
		ls.base, ls.gor = base, gor
		s.base = 0
		l.srvs = append(l.srvs, ls)
		if !slices.Equal(sorted(net.openSubs(s.node)), sorted(base)) {
			bad("P14 P15", "wrong-subscriptions", "%s starts with %v, the first server started with %v", s.id, net.openSubs(s.node), base)
			return
		}
	}
	for i := e.between(1, 2); i > 0; i-- {
		l.startClient()
	}
	// operations
	n := e.between(4, 25)
	concurrent := e.p(2, 3)
	for i := 0; i < n; i++ {
		ls := l.srvs[W(len(l.srvs))]
		ops := []*lifeOp{l.draw(ls)}
		if concurrent && WP(1, 2) {
			for j := 1 + W(3); j > 0; j-- {
				ops = append(ops, l.drawAlike(ls, ops[0]))
			}
		}
		if !ls.closed && FP(1, 5) {
			l.subErr[ls.s.node] = 1 + F(5)
		}
		if WP(1, 3) {
			l.call(W(4) == 0)
		}
		ls.perform(ops)
		if len(w.opList) > 0 && WP(1, 4) {
			w.waitOps(10 * time.Second)
		}
		if WP(1, 3) {
			sleep(time.Duration(W(20)) * ms)
		}
	}
	// every registration serves, nothing else does
	w.waitOps(20 * time.Second)
	sleep(6 * time.Second)
	for i := e.between(2, 8); i > 0; i-- {
		l.call(false)
	}
	w.waitOps(20 * time.Second)
	sleep(6 * time.Second)
	w.checkIdleState()
	for _, ls := range l.srvs {
		if !ls.closed {
			ls.perform([]*lifeOp{{kind: pick(lShut, lKill)}})
		}
	}
	g := newGroup()
	for _, c := range w.aliveClients() {
		for i := 1 + W(2); i > 0; i-- {
			g.Go(0, c.close)
		}
	}
	if !g.Wait(30 * time.Second) {
		bad("P23", "close-hangs", "closing the clients has not finished after 30s")
	}
	// nothing can be done with what is closed
	for _, ls := range l.srvs {
		if ls.s.closed.ok() {
			ls.closed, ls.has = true, map[lkey]bool{}
			for i := W(3); i >= 0; i-- {
				ls.perform([]*lifeOp{l.draw(ls)})
			}
		}
	}
	for i := W(4); i > 0 && len(w.clients) > 0; i-- {
		l.call(true)
	}
	w.waitOps(20 * time.Second)
	sleep(10 * time.Second)
	w.checkClosedState()
	w.checkCalls()
	w.checkShutdown()
	countN("ops", n)
}

func sorted(s []string) []string {
	s = slices.Clone(s)
	sort.Strings(s)
	return s
}

// minus is a without b, as multisets, sorted.
func minus(a, b []string) (r []string) {
	b = slices.Clone(b)
	for _, x := range a {
		if i := slices.Index(b, x); i >= 0 {
			b = slices.Delete(b, i, i+1)
		} else {
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return
}

// startServer starts a server, possibly after attempts that fail half way.
func (l *life) startServer(id string) *snode {
	w := l.w
	for try := 0; ; try++ {
		s := &snode{w: w, idx: len(w.servers), node: w.node(), id: id}
		fail := try < 2 && FP(1, 4)
		if fail {
			l.subErr[s.node] = 1 + F(14)
		}
		w.startServer(s, w.conn(s.node))
		fired := l.fired[s.node] > 0
		delete(l.subErr, s.node)
		checked("P14")
		if s.startErr == nil && !fired {
			w.servers = append(w.servers, s)
			return s
		}
		if (s.startErr != nil) != fired {
			bad("P14", "failed-start", "%s starts with %v, a subscription of it failed: %v", s.id, s.startErr, fired)
		}
		if s.srv2 == nil && s.srv != nil && w.two {
			s.srv.Shutdown() // only its second service has failed
		}
		sleep(20 * ms)
		l.gone("server", s.id, s.node)
	}
}

// gone: a node whose start failed has left nothing behind.
func (l *life) gone(what, id string, node uint32) {
	checked("P15")
	if s := l.w.net.openSubs(node); len(s) > 0 {
		bad("P15 P14", what+"-subscriptions", "%s has failed to start and holds %v", id, s)
	}
	if n := runtime.VerifNodeGoroutines(node); n > 0 {
		bad("P15 P14", what+"-goroutines", "%s has failed to start and runs %d goroutines: %v", id, n, runtime.VerifNodeGoFuncs(node))
	}
}

func (l *life) startClient() {
	w := l.w
	for try := 0; ; try++ {
		c := &cnode{w: w, idx: len(w.clients), node: w.node(), size: 10}
		c.id = fmt.Sprintf("client-%d", c.idx)
		if try < 2 && FP(1, 3) {
			l.subErr[c.node] = 1 + F(4)
		}
		w.startClient(c, w.conn(c.node))
		fired := l.fired[c.node] > 0
		delete(l.subErr, c.node)
		if c.err == nil && !fired {
			w.clients = append(w.clients, c)
			sleep(ms)
			w.baseline(c)
			return
		}
		if (c.err != nil) != fired {
			bad("P14", "failed-start", "%s starts with %v, a subscription of it failed: %v", c.id, c.err, fired)
		}
		if c.cli2 == nil && c.cli != nil && w.two {
			c.cli.Close()
		}
		sleep(20 * ms)
		l.gone("client", c.id, c.node)
	}
}

func (l *life) draw(ls *lifeSrv) *lifeOp {
	k := l.keys[W(len(l.keys))]
	t := l.grp[W(len(l.grp))]
	switch x := W(20); {
	case x < 7:
		return &lifeOp{kind: lReg, key: k}
	case x < 12:
		if len(ls.has) > 0 && WP(2, 3) { // one it has
			ks := make([]lkey, 0, len(ls.has))
			for _, k := range l.keys {
				if ls.has[k] {
					ks = append(ks, k)
				}
			}
			k = ks[W(len(ks))]
		}
		return &lifeOp{kind: lDereg, key: k}
	case x < 16:
		return &lifeOp{kind: lRegAll, topic: t}
	case x < 18:
		return &lifeOp{kind: lDeregAll, topic: t}
	case x < 19 && W(3) == 0:
		return &lifeOp{kind: pick(lShut, lKill)}
	}
	return &lifeOp{kind: lReg, key: lkey{pick(grpMethods...), t}}
}

// drawAlike draws an operation to run at the same time: mostly on the same
// key. Group operations are not atomic, so they share no key with others.
func (l *life) drawAlike(ls *lifeSrv, first *lifeOp) *lifeOp {
	for range 50 {
		o := l.draw(ls)
		if first.kind == lReg || first.kind == lDereg {
			if WP(2, 3) {
				o = &lifeOp{kind: pick(lReg, lDereg), key: first.key}
			}
			if o.kind == lRegAll || o.kind == lDeregAll {
				continue
			}
			return o
		}
		if o.kind == lReg || o.kind == lDereg {
			if (first.kind == lRegAll || first.kind == lDeregAll) && slices.Contains(grpMethods, o.key.method) {
				continue
			}
			return o
		}
	}
	return &lifeOp{kind: lDereg, key: lkey{"TPlain", l.grp[0]}}
}

// call calls some method; the oracles know whether it must be served.
func (l *life) call(closedToo bool) {
	w := l.w
	cl := w.aliveClients()
	if closedToo {
		cl = w.clients
	}
	if len(cl) == 0 {
		return
	}
	c := cl[W(len(cl))]
	if c.err != nil {
		return
	}
	k := l.keys[W(len(l.keys))]
	for k.method == "TStr" {
		k = l.keys[W(len(l.keys))]
	}
	if len(l.srvs) > 0 && WP(2, 3) {
		ls := l.srvs[W(len(l.srvs))]
		for _, x := range l.keys {
			if ls.has[x] && x.method != "TStr" && WP(1, 2) {
				k = x
				break
			}
		}
	}
	op := w.newOp(c, k.method, k.topics()...)
	if isAffMethod(op.method) {
		for _, s := range w.servers {
			op.affs[s.id] = 0.5
		}
	}
	op.timeout = pick(1000*ms, 300*ms, 100*ms)
	if WP(1, 3) {
		op.beh.delay = time.Duration(W(200)) * ms
	}
	goNode(c.node, op.run)
}
