package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/verifsim/simpb"
	"github.com/livekit/psrpc/pkg/middleware"
	"github.com/livekit/psrpc/pkg/middleware/otelpsrpc"
)

// mw is the middleware of a run: hooks and interceptors which record what they
// are given, with the shipped middleware between them.
type mw struct {
	w                      *world
	nReq, nRes             int // hooks
	nCli, nMulti, nStr     int // recording interceptors of clients
	nSrv, nSStr            int // and of servers
	retry                  *middleware.RetryOptions
	retryAt                int                        // the client recorder before which the retries are; -1: none
	retryOpt               psrpc.ClientRPCInterceptor // the same, for single requests
	sretry                 *middleware.RetryOptions
	sretryAt               int
	metrics, otel, recover bool

	talC, talS *tally // of clients and servers
	spans      []*simSpan
	bySpan     map[string]*simSpan
	strOps     map[any]*callOp
	closes     map[string]int // stream interceptors' Close, by side and level
}

// mwOp is what the middleware recorded of one call.
type mwOp struct {
	nOpt    int // recorders given with the request
	short   int // the recorder which answers itself; -1: none
	twice   int // the one which calls on a second time after a failure
	swap    int // the one which replaces the answer
	optAt   int // the one which sets the timeout
	optTO   time.Duration
	retry   bool // retried by the middleware
	swapped *simpb.Resp

	srvTwice, srvSwap int
	dup               int // further runs by server interceptors

	ev     []string
	rv     []string // multi: hooks, receipts and close
	rvErr  []error
	rvMsg  []proto.Message
	ret    map[int]mwRet
	calls  map[int][]int
	tries  []*mwTry
	retryB stamp // the retries' end
	doneB  bool  // the caller's context was over then
	retryE error
	hookRs []mwRet
	talIn  stamp // multi: where the metrics' inside begins
}

type mwRet struct {
	res proto.Message
	err error
}

// mwTry is one attempt at a call or a send.
type mwTry struct {
	start, end stamp
	timeout    time.Duration
	err        error
	done       bool // the caller's context was over at its end
	pubs       int  // requests published before it
}

// odd: the call does not end as a plain one does.
func (x *mwOp) odd() bool { return x.short >= 0 || x.twice >= 0 || x.retry }

var errShort = psrpc.NewErrorf(psrpc.PermissionDenied, "answered by an interceptor")

func newMwOp() *mwOp {
	return &mwOp{short: -1, twice: -1, swap: -1, optAt: -1, srvTwice: -1, srvSwap: -1, ret: map[int]mwRet{}, calls: map[int][]int{}}
}

type mwKey struct{}

// mwLvl marks a context on its way through the recorders.
type mwLvl struct {
	op  *callOp
	i   int
	run *srvRun
}

type srvRun struct {
	hs *hStart
	lv int
}

// useMiddleware draws the middleware of the run.
func (w *world) useMiddleware(e *env) {
	m := &mw{w: w, retryAt: -1, sretryAt: -1, bySpan: map[string]*simSpan{}, closes: map[string]int{}}
	w.mw = m
	m.nReq, m.nRes = e.n(3), e.n(3)
	m.nCli, m.nMulti, m.nStr, m.nSrv, m.nSStr = e.n(4), e.n(4), e.n(4), 1+e.n(3), e.n(4)
	m.metrics = e.p(2, 3) || e.focus == 19
	m.otel = e.p(1, 2) || e.focus == 19
	m.recover = e.p(1, 2) || e.focus == 18
	if m.otel && m.nCli == 0 {
		m.nCli = 1
	}
	ro := func() *middleware.RetryOptions {
		o := &middleware.RetryOptions{MaxAttempts: e.between(1, 4), Timeout: cpick(e.cfgRng, 0, 20*ms, 60*ms, 200*ms), Backoff: cpick(e.cfgRng, 0, 15*ms, 100*ms)}
		switch e.n(4) {
		case 0:
			o.IsRecoverable = func(error) bool { return true }
		case 1:
			o.IsRecoverable = func(err error) bool {
				c, _ := psrpc.GetErrorCode(err)
				return c == psrpc.DeadlineExceeded || c == psrpc.NotFound
			}
		}
		if e.p(1, 4) {
			n, wait, to := o.MaxAttempts, cpick(e.cfgRng, 0, 30*ms, 300*ms), cpick(e.cfgRng, 0, 40*ms)
			o.GetRetryParameters = func(err error, attempt int) (bool, time.Duration, time.Duration) {
				return attempt < n && isRecoverable(o, err), to * time.Duration(attempt), wait * time.Duration(attempt)
			}
		}
		return o
	}
	if e.p(1, 2) || e.focus == 17 {
		m.retry = ro()
		m.retryOpt = middleware.NewRPCRetryInterceptor(*m.retry)
		if e.p(1, 3) {
			m.retryAt = e.n(m.nCli + 1)
		}
	}
	if e.p(1, 3) || e.focus == 17 && e.p(2, 3) {
		m.sretry = ro()
		m.sretryAt = e.n(m.nStr + 1)
	}
	metAt, otelAt := e.n(m.nCli+1), e.n(m.nCli+1)
	if m.otel && otelAt == 0 {
		otelAt = 1
	}
	m.talC, m.talS = newTally(m, "client"), newTally(m, "server")

	var c []psrpc.ClientOption
	for i := 0; i < m.nReq; i++ {
		c = append(c, psrpc.WithClientRequestHooks(m.reqHook(i)))
	}
	for i := 0; i < m.nRes; i++ {
		c = append(c, psrpc.WithClientResponseHooks(m.resHook(i)))
	}
	// unary: the shipped interceptors between the recorders
	var met psrpc.ClientOpts
	if m.metrics {
		middleware.WithClientMetrics(m.talC)(&met)
	}
	for i := 0; i <= m.nCli; i++ {
		if m.metrics && i == metAt {
			c = append(c, psrpc.WithClientRPCInterceptors(m.talC.outer))
			c = append(c, psrpc.WithClientRPCInterceptors(met.RpcInterceptors...))
			c = append(c, psrpc.WithClientRPCInterceptors(m.talC.inner))
		}
		if m.otel && i == otelAt {
			c = append(c, otelpsrpc.ClientOptions(otelpsrpc.Config{TracerProvider: simTracers{m: m}}))
		}
		if i == m.retryAt {
			c = append(c, psrpc.WithClientRPCInterceptors(m.retryOut), middleware.WithRPCRetries(*m.retry), psrpc.WithClientRPCInterceptors(m.retryIn))
		}
		if i < m.nCli {
			c = append(c, psrpc.WithClientRPCInterceptors(m.rec(i)))
		}
	}
	mm := e.n(m.nMulti + 1)
	for i := 0; i <= m.nMulti; i++ {
		if m.metrics && i == mm {
			c = append(c, psrpc.WithClientMultiRPCInterceptors(m.talC.multiOuter))
			c = append(c, psrpc.WithClientMultiRPCInterceptors(met.MultiRPCInterceptors...))
			c = append(c, psrpc.WithClientMultiRPCInterceptors(m.talC.multiInner))
		}
		if i < m.nMulti {
			c = append(c, psrpc.WithClientMultiRPCInterceptors(m.multiRec(i)))
		}
	}
	sm := e.n(m.nStr + 1)
	for i := 0; i <= m.nStr; i++ {
		if m.metrics && i == sm {
			c = append(c, psrpc.WithClientStreamInterceptors(m.talC.strOuter))
			c = append(c, psrpc.WithClientStreamInterceptors(met.StreamInterceptors...))
			c = append(c, psrpc.WithClientStreamInterceptors(m.talC.strInner))
		}
		if i == m.sretryAt {
			c = append(c, psrpc.WithClientStreamInterceptors(m.sretryOut), middleware.WithStreamRetries(*m.sretry), psrpc.WithClientStreamInterceptors(m.sretryIn))
		}
		if i < m.nStr {
			c = append(c, psrpc.WithClientStreamInterceptors(m.strRec("c", i)))
		}
	}
	if e.p(1, 3) {
		c = []psrpc.ClientOption{psrpc.WithClientOptions(c...)}
	}
	w.cliOpts = append(w.cliOpts, c...)

	var s []psrpc.ServerOption
	var smet psrpc.ServerOpts
	if m.metrics {
		middleware.WithServerMetrics(m.talS)(&smet)
	}
	metAt, otelAt = e.n(m.nSrv+1), e.n(m.nSrv+1)
	for i := 0; i <= m.nSrv; i++ {
		if m.metrics && i == metAt {
			s = append(s, psrpc.WithServerRPCInterceptors(m.talS.srvOuter))
			s = append(s, psrpc.WithServerRPCInterceptors(smet.Interceptors...))
			s = append(s, psrpc.WithServerRPCInterceptors(m.talS.srvInner))
		}
		if m.otel && i == otelAt {
			s = append(s, otelpsrpc.ServerOptions(otelpsrpc.Config{TracerProvider: simTracers{m: m, srv: true}}))
		}
		if i < m.nSrv {
			s = append(s, psrpc.WithServerRPCInterceptors(nil, m.srvRec(i)))
		}
	}
	sm = e.n(m.nSStr + 1)
	for i := 0; i <= m.nSStr; i++ {
		if m.metrics && i == sm {
			s = append(s, psrpc.WithServerStreamInterceptors(m.talS.strOuter))
			s = append(s, psrpc.WithServerStreamInterceptors(smet.StreamInterceptors...))
			s = append(s, psrpc.WithServerStreamInterceptors(m.talS.strInner))
		}
		if i < m.nSStr {
			s = append(s, psrpc.WithServerStreamInterceptors(m.strRec("s", i)))
		}
	}
	if m.recover {
		s = append(s, psrpc.WithServerRPCInterceptors(middleware.WithServerRecovery()))
	}
	if e.p(1, 3) {
		s = []psrpc.ServerOption{psrpc.WithServerOptions(s...)}
	}
	w.svcOpts = append(w.svcOpts, s...)
}

// draw decides what the interceptors do with a call.
func (m *mw) draw(op *callOp) {
	x := op.mwx
	if op.str == nil && m.recover && WP(1, 6) {
		op.beh.kind = bPanic
	}
	if op.str == nil && WP(1, 12) {
		op.beh.kind = bBadResp
	}
	if op.str != nil {
		if WP(1, 3) {
			x.nOpt = 1 + W(2)
			for i := 0; i < x.nOpt; i++ {
				op.extra = append(op.extra, psrpc.WithRequestInterceptors(m.strRec("c", m.nStr+i)))
			}
		}
		return
	}
	if WP(1, 15) {
		op.req.Text = "not UTF-8: \xff"
		op.badReq = true
	}
	if op.multi {
		if WP(1, 3) {
			x.nOpt = 1 + W(2)
			for i := 0; i < x.nOpt; i++ {
				op.extra = append(op.extra, psrpc.WithRequestInterceptors(m.multiRec(m.nMulti+i)))
			}
		}
		if n := m.nMulti + x.nOpt; n > 0 && WP(1, 12) {
			x.short = W(n)
		}
		return
	}
	if m.retry != nil && m.retryAt < 0 && WP(2, 3) {
		x.retry = true
		op.extra = append(op.extra, psrpc.WithRequestInterceptors(psrpc.ClientRPCInterceptor(m.retryOut), m.retryOpt, m.retryIn))
	}
	if WP(1, 3) {
		x.nOpt = 1 + W(2)
		for i := 0; i < x.nOpt; i++ {
			op.extra = append(op.extra, psrpc.WithRequestInterceptors(m.rec(m.nCli+i)))
		}
	}
	if n := m.nCli + x.nOpt; n > 0 {
		switch W(12) {
		case 1:
			x.short = W(n)
		case 2:
			x.twice = W(n)
		case 3:
			x.swap = W(n)
		case 4:
			if !x.retry && m.retryAt < 0 {
				x.optAt = W(n)
				x.optTO = pick(200*ms, 40*ms, 1000*ms)
				op.timeout = x.optTO
			}
		}
	}
	switch W(8) {
	case 1:
		x.srvTwice = W(m.nSrv)
	case 2:
		x.srvSwap = W(m.nSrv)
	}
}

func (m *mw) op(msg proto.Message) *callOp {
	if r, ok := msg.(*simpb.Req); ok && r != nil {
		return m.w.ops[r.Id]
	}
	return nil
}

// sees checks that an interceptor or hook is given the call it belongs to.
func (m *mw) sees(who string, op *callOp, req proto.Message, info psrpc.RPCInfo) {
	checked("P16")
	if op == nil {
		bad("P16", "unknown-call", "%s was given request %v, which nobody made", who, req)
		return
	}
	svc, me := "Sim", op.method
	if me[0] == '2' {
		svc, me = "Sim2", me[1:]
	}
	if info.Method != me || info.Service != svc || topicString(info.Topic) != topicString(op.topic) || info.Multi != op.multi {
		bad("P16", "wrong-info", "%s of %s was told %+v", who, op, info)
	}
}

func (m *mw) reqHook(i int) psrpc.ClientRequestHook {
	return func(ctx context.Context, req proto.Message, info psrpc.RPCInfo) {
		op := m.op(req)
		m.sees("request hook", op, req, info)
		if op != nil {
			op.mwx.ev = append(op.mwx.ev, fmt.Sprint("q", i))
		}
	}
}

func (m *mw) resHook(i int) psrpc.ClientResponseHook {
	return func(ctx context.Context, req proto.Message, info psrpc.RPCInfo, res proto.Message, err error) {
		op := m.op(req)
		m.sees("response hook", op, req, info)
		if op == nil {
			return
		}
		x := op.mwx
		if op.multi && res != nil {
			x.rv = append(x.rv, fmt.Sprint("p", i))
			x.rvMsg, x.rvErr = append(x.rvMsg, res), append(x.rvErr, err)
			return
		}
		x.ev = append(x.ev, fmt.Sprint("p", i))
		x.hookRs = append(x.hookRs, mwRet{res, err})
	}
}

func lvlOf(ctx context.Context) *mwLvl {
	l, _ := ctx.Value(mwKey{}).(*mwLvl)
	return l
}

func (m *mw) passed(who string, ctx context.Context, op *callOp, i int) {
	l := lvlOf(ctx)
	if i == 0 && l != nil || i > 0 && (l == nil || l.i != i-1 || l.op != op) {
		bad("P16", "wrong-context", "%s %d of %s was not given the context which the one before passed on (%+v)", who, i, op, l)
	}
}

func nilMsg(m proto.Message) bool {
	return m == nil || reflect.ValueOf(m).IsNil()
}

func sameRet(a, b mwRet) bool {
	if a.err != nil || b.err != nil {
		return a.err == b.err
	}
	if nilMsg(a.res) || nilMsg(b.res) {
		return nilMsg(a.res) && nilMsg(b.res)
	}
	return a.res == b.res
}

// between: the retries are between two recorders.
func (m *mw) retryBetween(op *callOp, i int) bool {
	return m.retryAt == i+1 || op.mwx.retry && m.retryAt < 0 && i+1 == m.nCli
}

// outermost: the retries are outside of all recorders.
func (m *mw) outermost(op *callOp) bool {
	return m.retryAt == 0 || op.mwx.retry && m.retryAt < 0 && m.nCli == 0
}

// rec is a client interceptor which records.
func (m *mw) rec(i int) psrpc.ClientRPCInterceptor {
	return func(info psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
		return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
			op := m.op(req)
			m.sees(fmt.Sprint("client interceptor ", i), op, req, info)
			if op == nil {
				return next(ctx, req, opts...)
			}
			x := op.mwx
			x.ev = append(x.ev, fmt.Sprint("+", i))
			m.passed("client interceptor", ctx, op, i)
			if req != proto.Message(op.req) {
				bad("P16", "wrong-request", "client interceptor %d of %s was given another request", i, op)
			}
			n := 0
			var r mwRet
			if x.short == i {
				r = mwRet{nil, errShort}
				if op.id%2 == 0 {
					x.swapped = &simpb.Resp{Id: op.id, Text: "answered by an interceptor"}
					r = mwRet{x.swapped, nil}
				}
			} else {
				o := append([]psrpc.RequestOption(nil), opts...)
				if x.optAt == i {
					o = append(o, psrpc.WithRequestTimeout(x.optTO))
				}
				for {
					n++
					r.res, r.err = next(context.WithValue(ctx, mwKey{}, &mwLvl{op: op, i: i}), req, o...)
					if in, ok := x.ret[i+1]; ok && !m.retryBetween(op, i) && !sameRet(r, in) {
						bad("P16", "wrong-result", "client interceptor %d of %s was returned (%v, %v) where the next one returned (%v, %v)", i, op, r.res, r.err, in.res, in.err)
					}
					if x.twice != i || n > 1 || r.err == nil {
						break
					}
				}
				if x.swap == i && r.err == nil {
					x.swapped = &simpb.Resp{Id: op.id, Text: "replaced by an interceptor"}
					r.res = x.swapped
				}
			}
			x.calls[i] = append(x.calls[i], n)
			x.ret[i] = r
			x.ev = append(x.ev, fmt.Sprint("-", i))
			return r.res, r.err
		}
	}
}

func isRecoverable(o *middleware.RetryOptions, err error) bool {
	if o.IsRecoverable != nil {
		return o.IsRecoverable(err)
	}
	// errors of unknown kind, timeouts and unavailability
	c, ok := psrpc.GetErrorCode(err)
	return !ok || c == psrpc.DeadlineExceeded || c == psrpc.Unavailable
}

func (m *mw) retryOut(info psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
	return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
		op := m.op(req)
		if op == nil {
			return next(ctx, req, opts...)
		}
		x := op.mwx
		x.retry = true
		from := len(x.tries)
		res, err := next(ctx, req, opts...)
		at := mark()
		m.checkTries("P17", op.String(), m.retry, x.tries[from:], mwRet{res, err}, ctx.Err() != nil, at, m.w.paused[op.c.node])
		for _, t := range x.tries[from:] {
			if t.timeout > 0 && x.twice < 0 {
				// what is left of the caller's own limit counts as well
				lim := t.timeout
				if d := idleSince(t.start, t.end) - (t.end.busy - t.start.busy) - lim - m.w.paused[op.c.node]; d > eps && !m.w.connecting(op.c.node, t.start) {
					bad("P17 P03", "attempt-late", "%s: an attempt ended %v after its timeout of %v", op, d, lim)
				}
			}
		}
		return res, err
	}
}

func (m *mw) retryIn(info psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
	return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (proto.Message, error) {
		op := m.op(req)
		if op == nil {
			return next(ctx, req, opts...)
		}
		var o psrpc.RequestOpts
		for _, f := range opts {
			f(&o)
		}
		x := op.mwx
		n := len(op.pubs)
		t := &mwTry{start: mark(), timeout: o.Timeout, pubs: n}
		x.tries = append(x.tries, t)
		logf("%s attempt %d, timeout %v", op, len(x.tries), o.Timeout)
		count("retry_attempts")
		res, err := next(ctx, req, opts...)
		t.end, t.err, t.done = mark(), err, ctx.Err() != nil
		if x.short < 0 && x.twice < 0 && len(op.pubs)-n > 1 {
			bad("P17 P01", "attempt-sent-twice", "%s: attempt %d published %d requests", op, len(x.tries), len(op.pubs)-n)
		}
		return res, err
	}
}

// checkTries compares attempts with the retry policy.
func (m *mw) checkTries(prop, who string, o *middleware.RetryOptions, tries []*mwTry, got mwRet, done bool, at stamp, slack time.Duration) {
	checked("P17")
	if len(tries) == 0 {
		bad(prop, "no-attempt", "%s was never attempted", who)
		return
	}
	want := o.Timeout
	var wait time.Duration
	for k, t := range tries {
		if want > 0 && t.timeout != want {
			bad(prop, "attempt-timeout", "%s: attempt %d has a timeout of %v, %v is due", who, k+1, t.timeout, want)
		}
		if k > 0 {
			l := tries[k-1]
			if d := t.start.t - l.end.t; d < wait {
				bad(prop, "attempt-early", "%s: attempt %d began %v after the one before had failed, %v is due", who, k+1, d, wait)
			}
			if d := idleSince(l.end, t.start) - wait - slack; d > eps {
				bad(prop, "attempt-tardy", "%s: attempt %d began %v after it was due", who, k+1, d)
			}
		}
		if k > 0 && tries[k-1].done {
			bad(prop, "attempt-after-cancel", "%s: attempt %d was made although the caller's context was over", who, k+1)
		}
		again := false
		if t.err != nil {
			if o.GetRetryParameters != nil {
				again, want, wait = o.GetRetryParameters(t.err, k+1)
			} else {
				again = isRecoverable(o, t.err) && k+1 != o.MaxAttempts
				want += o.Backoff
			}
		}
		last := k == len(tries)-1
		if !last {
			if !again {
				bad(prop, "attempt-undue", "%s: attempt %d was made after %v", who, k+2, t.err)
			}
			continue
		}
		switch {
		case again && !t.done && !done:
			bad(prop, "attempt-missing", "%s: given up after attempt %d, which failed with %v", who, k+1, t.err)
		case again && got.err != psrpc.ErrRequestCanceled:
			bad(prop, "wrong-result", "%s: its context ended between attempts, it failed with %v", who, got.err)
		case !again && got.err != t.err:
			bad(prop, "wrong-result", "%s failed with %v, its last attempt with %v", who, got.err, t.err)
		}
	}
}

// ---- multi calls -------------------------------------------------------------

type multiRec struct {
	psrpc.ClientMultiRPCHandler
	m    *mw
	i    int
	info psrpc.RPCInfo
	op   *callOp
}

func (m *mw) multiRec(i int) psrpc.ClientMultiRPCInterceptor {
	return func(info psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
		return &multiRec{ClientMultiRPCHandler: next, m: m, i: i, info: info}
	}
}

func (r *multiRec) Send(ctx context.Context, msg proto.Message, opts ...psrpc.RequestOption) error {
	op := r.m.op(msg)
	r.op = op
	r.m.sees(fmt.Sprint("multi interceptor ", r.i), op, msg, r.info)
	if op == nil {
		return r.ClientMultiRPCHandler.Send(ctx, msg, opts...)
	}
	x := op.mwx
	r.m.passed("multi interceptor", ctx, op, r.i)
	x.ev = append(x.ev, fmt.Sprint("+", r.i))
	var err error
	if x.short == r.i {
		err = errShort
	} else {
		err = r.ClientMultiRPCHandler.Send(context.WithValue(ctx, mwKey{}, &mwLvl{op: op, i: r.i}), msg, opts...)
		x.calls[r.i] = append(x.calls[r.i], 1)
		if in, ok := x.ret[r.i+1]; ok && in.err != err {
			bad("P16", "wrong-result", "multi interceptor %d of %s was returned %v where the next one returned %v", r.i, op, err, in.err)
		}
	}
	x.ret[r.i] = mwRet{nil, err}
	x.ev = append(x.ev, fmt.Sprint("-", r.i))
	return err
}

func (r *multiRec) Recv(msg proto.Message, err error) {
	if op := r.op; op != nil {
		x := op.mwx
		x.rv = append(x.rv, fmt.Sprint("R", r.i))
		x.rvMsg, x.rvErr = append(x.rvMsg, msg), append(x.rvErr, err)
		r.ClientMultiRPCHandler.Recv(msg, err)
		x.rv = append(x.rv, fmt.Sprint("r", r.i))
		x.rvMsg, x.rvErr = append(x.rvMsg, msg), append(x.rvErr, err)
		return
	}
	bad("P16", "receipt-before-send", "multi interceptor %d was given an answer to no call", r.i)
	r.ClientMultiRPCHandler.Recv(msg, err)
}

func (r *multiRec) Close() {
	if op := r.op; op != nil {
		x := op.mwx
		x.rv = append(x.rv, fmt.Sprint("C", r.i))
		x.rvMsg, x.rvErr = append(x.rvMsg, nil), append(x.rvErr, nil)
		r.ClientMultiRPCHandler.Close()
		x.rv = append(x.rv, fmt.Sprint("c", r.i))
		x.rvMsg, x.rvErr = append(x.rvMsg, nil), append(x.rvErr, nil)
		return
	}
	r.ClientMultiRPCHandler.Close()
}

// ---- servers -------------------------------------------------------------------

func (m *mw) srvRec(i int) psrpc.ServerRPCInterceptor {
	return func(ctx context.Context, req proto.Message, info psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
		op := m.op(req)
		m.sees(fmt.Sprint("server interceptor ", i), op, req, info)
		if op == nil {
			return next(ctx, req)
		}
		x := op.mwx
		l := lvlOf(ctx)
		if i == 0 {
			if l != nil {
				bad("P16", "wrong-context", "server interceptor 0 of %s runs inside %d", op, l.i)
			}
			l = &mwLvl{op: op, i: -1, run: &srvRun{}}
		}
		if l == nil || l.i != i-1 || l.op != op {
			bad("P16", "wrong-context", "server interceptor %d of %s was not given the context which the one before passed on (%+v)", i, op, l)
			l = &mwLvl{op: op, i: i - 1, run: &srvRun{}}
		}
		run := l.run
		inner := context.WithValue(ctx, mwKey{}, &mwLvl{op: op, i: i, run: run})
		var before *hStart
		call := func() (proto.Message, error) {
			before = run.hs
			r, err := next(inner, req)
			if run.hs == before {
				bad("P16", "skipped", "server interceptor %d of %s called on, its implementation did not run", i, op)
			}
			return r, err
		}
		r, err := call()
		if x.srvTwice == i && err != nil {
			op.mwx.dup++
			r, err = call()
		}
		if x.srvSwap == i {
			if err == nil {
				r = &simpb.Resp{Id: op.id, Text: "replaced by a server interceptor"}
			} else {
				err = psrpc.NewErrorf(psrpc.Aborted, "replaced by a server interceptor")
			}
		}
		if hs := run.hs; i == 0 && hs != nil {
			// this is what its caller is to get
			hs.panicked = hs.panicked && x.srvSwap < 0
			if !hs.panicked {
				hs.err = err
			}
			hs.resp, _ = r.(*simpb.Resp)
		}
		return r, err
	}
}

// ran notes the run of an implementation.
func (m *mw) ran(ctx context.Context, op *callOp, hs *hStart) {
	checked("P16")
	l := lvlOf(ctx)
	if l == nil || l.i != m.nSrv-1 || l.op != op {
		bad("P16", "interceptor-skipped", "%s ran %s, of %d interceptors the context has passed %+v", hs.s.id, op, m.nSrv, l)
		return
	}
	l.run.hs = hs
	m.checkSpan(ctx, op, hs)
}

// ---- streams ---------------------------------------------------------------------

type strRec struct {
	psrpc.StreamHandler
	m    *mw
	side string
	i    int
	info psrpc.RPCInfo
}

func (m *mw) strRec(side string, i int) psrpc.StreamInterceptor {
	return func(info psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
		return &strRec{next, m, side, i, info}
	}
}

func (m *mw) msg(p proto.Message) *strMsg {
	if nilMsg(p) {
		return nil
	}
	switch v := p.(type) {
	case *simpb.CMsg:
		return m.w.msgs[v.Id]
	case *simpb.SMsg:
		return m.w.msgs[v.Id]
	}
	return nil
}

func (r *strRec) sees(what string, x *strMsg, msg proto.Message, fromClient bool) bool {
	checked("P16")
	if x == nil {
		bad("P16", "unknown-message", "stream interceptor %d was given message %v to %s, which nobody sent", r.i, msg, what)
		return false
	}
	op := x.from.op
	if r.info.Method != op.method || topicString(r.info.Topic) != topicString(op.topic) {
		bad("P16", "wrong-info", "stream interceptor %d of %s was told %+v", r.i, op, r.info)
	}
	if (x.from.server == nil) != fromClient {
		bad("P16", "wrong-side", "stream interceptor %s%d of %s was given message %d to %s", r.side, r.i, op, x.id, what)
	}
	return true
}

func (r *strRec) Send(msg proto.Message, opts ...psrpc.StreamOption) error {
	x := r.m.msg(msg)
	if !r.sees("send", x, msg, r.side == "c") {
		return r.StreamHandler.Send(msg, opts...)
	}
	x.evS = append(x.evS, fmt.Sprint("+", r.i))
	err := r.StreamHandler.Send(msg, opts...)
	x.evS = append(x.evS, fmt.Sprint("-", r.i))
	return err
}

func (r *strRec) Recv(msg proto.Message) error {
	x := r.m.msg(msg)
	if !r.sees("receive", x, msg, r.side == "s") {
		return r.StreamHandler.Recv(msg)
	}
	x.evR = append(x.evR, fmt.Sprint("+", r.i))
	err := r.StreamHandler.Recv(msg)
	x.evR = append(x.evR, fmt.Sprint("-", r.i))
	if r.i == 0 {
		x.recvErr = append(x.recvErr, err)
	}
	return err
}

func (r *strRec) Close(cause error) error {
	r.m.closes[fmt.Sprintf("%s+%d", r.side, r.i)]++
	err := r.StreamHandler.Close(cause)
	r.m.closes[fmt.Sprintf("%s-%d", r.side, r.i)]++
	return err
}

type sretry struct {
	psrpc.StreamHandler
	m     *mw
	inner bool
}

func (m *mw) sretryOut(_ psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
	return &sretry{next, m, false}
}

func (m *mw) sretryIn(_ psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
	return &sretry{next, m, true}
}

func (s *sretry) Send(msg proto.Message, opts ...psrpc.StreamOption) error {
	x := s.m.msg(msg)
	if x == nil {
		return s.StreamHandler.Send(msg, opts...)
	}
	if s.inner {
		var o psrpc.StreamOpts
		for _, f := range opts {
			f(&o)
		}
		t := &mwTry{start: mark(), timeout: o.Timeout}
		x.tries = append(x.tries, t)
		if o.Timeout > 0 {
			x.from.op.maxTO = max(x.from.op.maxTO, o.Timeout)
		}
		count("retry_attempts")
		t.err = s.StreamHandler.Send(msg, opts...)
		t.end = mark()
		return t.err
	}
	x.retried = true
	err := s.StreamHandler.Send(msg, opts...)
	at := mark()
	e := x.from
	s.m.checkTries("P17", fmt.Sprintf("%s %s: send of %d", e.op, e.who, x.id), s.m.sretry, x.tries, mwRet{nil, err}, false, at, s.m.w.paused[e.node])
	return err
}

// ---- oracles -----------------------------------------------------------------------

// nested parses the record of a chain of n recorders from level i on.
func (x *mwOp) nested(ev []string, i, n int, retry func(i int) bool) ([]string, bool) {
	if i == n {
		return ev, true
	}
	if len(ev) == 0 || ev[0] != fmt.Sprint("+", i) {
		return ev, false
	}
	ev = ev[1:]
	k := 0
	for len(ev) > 0 && ev[0] == fmt.Sprint("+", i+1) {
		var ok bool
		if ev, ok = x.nested(ev, i+1, n, retry); !ok {
			return ev, false
		}
		k++
	}
	want := 0
	if l := x.calls[i]; len(l) > 0 {
		want, x.calls[i] = l[0], l[1:]
	}
	if i+1 < n && k != want && !(retry(i) && k >= want) {
		return ev, false
	}
	if len(ev) == 0 || ev[0] != fmt.Sprint("-", i) {
		return ev, false
	}
	return ev[1:], true
}

func plainNest(n int, open, shut string) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprint(open, i))
	}
	for i := n - 1; i >= 0; i-- {
		r = append(r, fmt.Sprint(shut, i))
	}
	return
}

func seq(n int, p string) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprint(p, i))
	}
	return
}

func hasPrefix(ev, p []string) bool {
	if len(ev) < len(p) {
		return false
	}
	for i := range p {
		if ev[i] != p[i] {
			return false
		}
	}
	return true
}

// checkMwCall: hooks and interceptors of one call (P16).
func (w *world) checkMwCall(op *callOp) {
	m, x := w.mw, op.mwx
	if !op.start.ok() || op.c.crashed.ok() || !op.done || op.str != nil {
		return
	}
	checked("P16")
	err := op.err
	if op.multi {
		err = op.sendErr
	}
	if errors.Is(err, psrpc.ErrClientClosed) && len(x.ev) == 0 {
		return
	}
	ev := x.ev
	if !hasPrefix(ev, seq(m.nReq, "q")) {
		bad("P16", "request-hooks", "%s: request hooks and interceptors ran as %v, %d hooks were to run first", op, x.ev, m.nReq)
		return
	}
	ev = ev[m.nReq:]
	n := m.nCli
	if op.multi {
		n = m.nMulti
	}
	n += x.nOpt
	if n > 0 {
		outer := 1
		if m.outermost(op) && !op.multi { // the retries are outside of all recorders
			outer = len(ev)
		}
		ok, k := true, 0
		for ok && k < outer && len(ev) > 0 && ev[0] == "+0" {
			ev, ok = x.nested(ev, 0, n, func(i int) bool { return !op.multi && m.retryBetween(op, i) })
			k++
		}
		if !ok || k == 0 {
			bad("P16", "nesting", "%s: hooks and interceptors ran as %v, %d interceptors were to nest", op, x.ev, n)
			return
		}
	}
	short := x.short >= 0
	if op.multi && op.sendErr == nil {
		if len(ev) > 0 {
			bad("P16", "nesting", "%s: hooks and interceptors ran as %v", op, x.ev)
		}
	} else {
		if !reflect.DeepEqual(append([]string{}, ev...), append([]string{}, seq(m.nRes, "p")...)) {
			bad("P16", "response-hooks", "%s: hooks and interceptors ran as %v, %d response hooks were to run last", op, x.ev, m.nRes)
		}
		for _, h := range x.hookRs {
			if h.err != err || err == nil && h.res != proto.Message(op.resp) {
				bad("P16", "hook-result", "%s: a response hook was given (%v, %v), the caller gets (%v, %v)", op, h.res, h.err, op.resp, err)
			}
		}
	}
	if !op.multi {
		if r, ok := x.ret[0]; ok && !m.outermost(op) && (r.err != op.err || r.err == nil && !nilMsg(r.res) && r.res != proto.Message(op.resp)) {
			bad("P16", "wrong-result", "%s: its caller gets (%v, %v), the first interceptor returned (%v, %v)", op, op.resp, op.err, r.res, r.err)
		}
		if short && len(op.pubs) > 0 {
			bad("P16", "sent-anyway", "%s was published although an interceptor did not pass it on", op)
		}
		return
	}
	if op.drain != 0 {
		return
	}
	// receipts: hooks, then the interceptors, for every answer; and one close
	rv, rm, re := x.rv, x.rvMsg, x.rvErr
	one := append(seq(m.nRes, "p"), plainNest(n, "R", "r")...)
	k, used := 0, 0
	for len(one) > 0 && hasPrefix(rv, one) {
		for j := range one {
			if rm[j] != rm[0] || re[j] != re[0] {
				bad("P16", "wrong-result", "%s: hooks and interceptors were given different answers", op)
			}
		}
		for used < len(op.entries) && k >= 0 {
			if op.entries[used].Err == re[0] && (re[0] != nil || proto.Message(op.entries[used].Result) == rm[0]) {
				used++
			}
			break
		}
		rv, rm, re = rv[len(one):], rm[len(one):], re[len(one):]
		k++
	}
	if len(one) > 0 && used < len(op.entries) {
		bad("P16", "entry-not-seen", "%s yielded %d entries, hooks and interceptors saw %d answers", op, len(op.entries), k)
	}
	shut := plainNest(n, "C", "c")
	if short && op.sendErr != nil || errors.Is(op.sendErr, psrpc.ErrClientClosed) {
		shut = nil
	}
	if !reflect.DeepEqual(append([]string{}, rv...), append([]string{}, shut...)) {
		bad("P16", "multi-events", "%s: after %d answers hooks and interceptors ran as %v, %v was due (send: %v)", op, k, rv, shut, op.sendErr)
	}
}

// checkOdd is what holds for calls whose interceptors do more than pass them on.
func (w *world) checkOdd(op *callOp) {
	x := op.mwx
	err := op.err
	if op.multi {
		err = op.sendErr
	}
	if op.cancelM.ok() && op.end.seq > op.cancelM.seq && x.short < 0 {
		if late := idleSince(op.cancelM, op.end) - w.paused[op.c.node]; late > eps && !w.connecting(op.c.node, op.start) {
			bad("P17 P03", "late-after-cancel", "%s ended %v after it was cancelled", op, late)
		}
	}
	if op.ctxTO != 0 && x.short < 0 {
		checked("P03")
		lim := op.t0 + op.ctxTO
		if late := op.end.t - lim - (op.end.busy - op.t0busy) - w.paused[op.c.node]; late > eps && !w.connecting(op.c.node, op.start) {
			bad("P17 P03", "late", "%s ended %v after its context", op, late)
		}
	}
	if x.short >= 0 {
		if op.multi {
			if err != errShort && !errors.Is(err, psrpc.ErrClientClosed) {
				bad("P16", "wrong-result", "%s: an interceptor answered %v, its caller gets %v", op, errShort, err)
			}
		}
		return
	}
	var match *hStart
	for _, hs := range op.starts {
		if op.matches(hs, op.resp, op.err) && hs.end.seq < op.end.seq {
			match = hs
		}
	}
	if op.err == nil && x.swapped == nil {
		checked("P02")
		if match == nil {
			bad("P02", "wrong-answer", "%s returned %v, %s", op, op.resp, op.describeRuns())
		}
	}
	if x.retry && x.twice < 0 {
		// every attempt is a request of its own
		checked("P17")
		n := 0
		for _, t := range x.tries {
			if t.end.ok() {
				n++
			}
		}
		if len(op.reqIDs) > n {
			bad("P17", "requests", "%s: %d attempts published %d requests", op, n, len(op.reqIDs))
		}
		seen := map[string]bool{}
		for _, id := range op.reqIDs {
			if seen[id] {
				bad("P17 P01", "request-reused", "%s: two attempts share the request id %s", op, id)
			}
			seen[id] = true
		}
	}
}

// checkMw is everything about the middleware that can be told at the end.
func (w *world) checkMw() {
	m := w.mw
	if m == nil {
		return
	}
	for _, op := range w.opList {
		w.checkMwCall(op)
	}
	ids := make([]uint64, 0, len(w.msgs))
	for id := range w.msgs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		m.checkMsg(w.msgs[id])
	}
	crashed := map[string]bool{}
	for _, c := range w.clients {
		crashed["c"] = crashed["c"] || c.crashed.ok()
	}
	for _, s := range w.servers {
		crashed["s"] = crashed["s"] || s.crashed.ok()
	}
	for _, side := range []string{"c", "s"} {
		n := m.nStr
		if side == "s" {
			n = m.nSStr
		}
		for i := 0; i < n && !crashed[side]; i++ {
			checked("P16")
			a, b := m.closes[fmt.Sprintf("%s+%d", side, i)], m.closes[fmt.Sprintf("%s-%d", side, i)]
			if a != b || i > 0 && a != m.closes[fmt.Sprintf("%s+%d", side, i-1)] {
				bad("P16", "stream-closes", "stream interceptors of side %s: closes %v", side, m.closes)
				break
			}
		}
	}
	m.talC.check(w)
	m.talS.check(w)
	m.checkSpans()
}

func (m *mw) checkMsg(x *strMsg) {
	e := x.from
	op := e.op
	if !x.end.ok() || op.c.crashed.ok() || e.server != nil && e.server.crashed.ok() {
		return
	}
	checked("P16")
	nS, nR := m.nStr+op.mwx.nOpt, m.nSStr
	if e.server != nil {
		nS, nR = nR, nS
	}
	if !m.nests(x.evS, nS, max(1, len(x.tries)), e.server == nil) {
		bad("P16", "stream-send", "%s %s: the interceptors ran as %v for the send of %d, %d were to nest", op, e.who, x.evS, x.id, nS)
	}
	down := false
	for _, p := range op.ends() {
		if (p.server == nil) != (e.server == nil) {
			down = down || p.server != nil && p.server.crashed.ok()
		}
	}
	if down || x.again {
		return
	}
	k := 0
	ev := x.evR
	if nR > 0 {
		one := plainNest(nR, "+", "-")
		for hasPrefix(ev, one) {
			ev = ev[len(one):]
			k++
		}
		if len(ev) > 0 || k > max(1, len(x.tries)) || k < len(x.got) {
			bad("P16", "stream-recv", "%s %s: the interceptors ran as %v for the receipt of %d, %d were to nest", op, e.who, x.evR, x.id, nR)
		}
	}
}

func (m *mw) nests(ev []string, n, tries int, client bool) bool {
	if n == 0 {
		return len(ev) == 0
	}
	out := n // recorders outside of the retries
	if client && m.sretryAt >= 0 {
		out = m.sretryAt
	} else {
		tries = 1
	}
	var want []string
	for i := 0; i < out && i < n; i++ {
		want = append(want, fmt.Sprint("+", i))
	}
	for k := 0; k < tries; k++ {
		for i := out; i < n; i++ {
			want = append(want, fmt.Sprint("+", i))
		}
		for i := n - 1; i >= out; i-- {
			want = append(want, fmt.Sprint("-", i))
		}
	}
	for i := min(out, n) - 1; i >= 0; i-- {
		want = append(want, fmt.Sprint("-", i))
	}
	return strings.Join(want, " ") == strings.Join(ev, " ")
}
