package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/embedded"
	"go.opentelemetry.io/otel/trace/noop"
	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/pkg/middleware"
)

// errStr is an error's text without what differs between executions.
func errStr(err error) string {
	if err == nil {
		return "<nil>"
	}
	s := err.Error()
	if i := strings.Index(s, panicText); i >= 0 {
		s = s[:i+len(panicText)]
	}
	return s
}

const panicText = "Caught server panic"

// ---- metrics -------------------------------------------------------------------

// tally is the metrics observer of one side, and the recorders right outside
// and inside of the metrics interceptors.
type tally struct {
	m    *mw
	side string
	role middleware.MetricRole
	rec  map[string]*talRec
}

// talRec is what was told and seen of one kind of event on one node.
type talRec struct {
	node         uint32
	got, in, out []time.Duration
	gotN, inN    int // events without a duration
}

func newTally(m *mw, side string) *tally {
	t := &tally{m: m, side: side, role: middleware.ClientRole, rec: map[string]*talRec{}}
	if side == "server" {
		t.role = middleware.ServerRole
	}
	return t
}

func here() uint32 {
	n := runtime.VerifSetNode(0)
	runtime.VerifSetNode(n)
	return n
}

func (t *tally) at(kind string, info psrpc.RPCInfo, f string, a ...any) *talRec {
	n := here()
	k := fmt.Sprintf("node%d %s %s.%s%q multi=%v %s", n, kind, info.Service, info.Method, info.Topic, info.Multi, fmt.Sprintf(f, a...))
	r := t.rec[k]
	if r == nil {
		r = &talRec{node: n}
		t.rec[k] = r
	}
	return r
}

func (t *tally) told(role middleware.MetricRole) {
	checked("P19")
	if role != t.role {
		bad("P19", "wrong-role", "the metrics of a %s were told as those of a %s", t.side, role)
	}
}

func outcome(err error, rx, tx int) string {
	return fmt.Sprintf("err=%s rx=%d tx=%d", errStr(err), rx, tx)
}

func (t *tally) OnUnaryRequest(role middleware.MetricRole, info psrpc.RPCInfo, d time.Duration, err error, rx, tx int) {
	t.told(role)
	r := t.at("call", info, "%s", outcome(err, rx, tx))
	r.got = append(r.got, d)
}

func (t *tally) OnMultiRequest(role middleware.MetricRole, info psrpc.RPCInfo, d time.Duration, responses, errors, rx, tx int) {
	t.told(role)
	r := t.at("multi", info, "responses=%d errors=%d rx=%d tx=%d", responses, errors, rx, tx)
	r.got = append(r.got, d)
}

func (t *tally) OnStreamSend(role middleware.MetricRole, info psrpc.RPCInfo, d time.Duration, err error, n int) {
	t.told(role)
	r := t.at("send", info, "err=%s bytes=%d", errStr(err), n)
	r.got = append(r.got, d)
}

func (t *tally) OnStreamRecv(role middleware.MetricRole, info psrpc.RPCInfo, err error, n int) {
	t.told(role)
	t.at("recv", info, "err=%s bytes=%d", errStr(err), n).gotN++
}

func (t *tally) OnStreamOpen(role middleware.MetricRole, info psrpc.RPCInfo) {
	t.told(role)
	t.at("open", info, "").gotN++
	t.at("balance", info, "").gotN++
}

func (t *tally) OnStreamClose(role middleware.MetricRole, info psrpc.RPCInfo) {
	t.told(role)
	t.at("close", info, "").gotN++
	t.at("balance", info, "").inN++
}

// around times f for the recorders inside and outside of the interceptor.
func (t *tally) around(inner bool, f func() *talRec) {
	s := mark()
	r := f()
	d := now() - s.t
	if inner {
		r.in = append(r.in, d)
	} else {
		r.out = append(r.out, d)
	}
}

func (t *tally) unary(inner bool) psrpc.ClientRPCInterceptor {
	return func(info psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
		return func(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) (res proto.Message, err error) {
			t.around(inner, func() *talRec {
				res, err = next(ctx, req, opts...)
				return t.at("call", info, "%s", outcome(err, proto.Size(res), proto.Size(req)))
			})
			return
		}
	}
}

func (t *tally) outer(info psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
	return t.unary(false)(info, next)
}

func (t *tally) inner(info psrpc.RPCInfo, next psrpc.ClientRPCHandler) psrpc.ClientRPCHandler {
	return t.unary(true)(info, next)
}

func (t *tally) served(inner bool, ctx context.Context, req proto.Message, info psrpc.RPCInfo, next psrpc.ServerRPCHandler) (res proto.Message, err error) {
	n := proto.Size(req) // the implementation may change it
	t.around(inner, func() *talRec {
		res, err = next(ctx, req)
		if info.Multi {
			ok, ko := 1, 0
			if err != nil {
				ok, ko = 0, 1
			}
			return t.at("multi", info, "responses=%d errors=%d rx=%d tx=%d", ok, ko, n, proto.Size(res))
		}
		return t.at("call", info, "%s", outcome(err, n, proto.Size(res)))
	})
	return
}

func (t *tally) srvOuter(ctx context.Context, req proto.Message, info psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
	return t.served(false, ctx, req, info, next)
}

func (t *tally) srvInner(ctx context.Context, req proto.Message, info psrpc.RPCInfo, next psrpc.ServerRPCHandler) (proto.Message, error) {
	return t.served(true, ctx, req, info, next)
}

type talMulti struct {
	psrpc.ClientMultiRPCHandler
	t     *tally
	info  psrpc.RPCInfo
	inner bool
	op    *callOp
	start stamp
	n     struct{ ok, ko, rx, tx int }
}

func (t *tally) multiOuter(info psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
	return &talMulti{ClientMultiRPCHandler: next, t: t, info: info}
}

func (t *tally) multiInner(info psrpc.RPCInfo, next psrpc.ClientMultiRPCHandler) psrpc.ClientMultiRPCHandler {
	return &talMulti{ClientMultiRPCHandler: next, t: t, info: info, inner: true}
}

func (x *talMulti) Send(ctx context.Context, req proto.Message, opts ...psrpc.RequestOption) error {
	x.start = mark()
	x.op = x.t.m.op(req)
	if x.inner && x.op != nil {
		x.op.mwx.talIn = x.start
	}
	x.n.tx += proto.Size(req)
	return x.ClientMultiRPCHandler.Send(ctx, req, opts...)
}

func (x *talMulti) Recv(msg proto.Message, err error) {
	if err == nil {
		x.n.ok++
	} else {
		x.n.ko++
	}
	x.n.rx += proto.Size(msg)
	x.ClientMultiRPCHandler.Recv(msg, err)
}

func (x *talMulti) Close() {
	if x.inner {
		x.ClientMultiRPCHandler.Close()
		return
	}
	r := x.t.at("multi", x.info, "responses=%d errors=%d rx=%d tx=%d", x.n.ok, x.n.ko, x.n.rx, x.n.tx)
	lo := time.Duration(0)
	if x.op != nil && x.op.mwx.talIn.ok() {
		lo = now() - x.op.mwx.talIn.t
	}
	x.ClientMultiRPCHandler.Close()
	r.in = append(r.in, lo)
	r.out = append(r.out, now()-x.start.t)
}

type talStr struct {
	psrpc.StreamHandler
	t      *tally
	info   psrpc.RPCInfo
	inner  bool
	closed bool
}

func (t *tally) strOuter(info psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
	return &talStr{StreamHandler: next, t: t, info: info}
}

func (t *tally) strInner(info psrpc.RPCInfo, next psrpc.StreamHandler) psrpc.StreamHandler {
	t.at("open", info, "").inN++
	return &talStr{StreamHandler: next, t: t, info: info, inner: true}
}

func (x *talStr) Send(msg proto.Message, opts ...psrpc.StreamOption) (err error) {
	x.t.around(x.inner, func() *talRec {
		err = x.StreamHandler.Send(msg, opts...)
		return x.t.at("send", x.info, "err=%s bytes=%d", errStr(err), proto.Size(msg))
	})
	return
}

func (x *talStr) Recv(msg proto.Message) error {
	n := proto.Size(msg) // the receiver may change it from here on
	err := x.StreamHandler.Recv(msg)
	if x.inner {
		x.t.at("recv", x.info, "err=%s bytes=%d", errStr(err), n).inN++
	}
	return err
}

func (x *talStr) Close(cause error) error {
	if x.inner && !x.closed {
		x.closed = true
		x.t.at("close", x.info, "").inN++
	}
	return x.StreamHandler.Close(cause)
}

// check compares what the observer was told with what happened.
func (t *tally) check(w *world) {
	down := map[uint32]bool{}
	for n := range w.net.dead {
		down[n] = true
	}
	for _, k := range sortedKeys(t.rec) {
		r := t.rec[k]
		if down[r.node] || !w.mw.metrics {
			continue
		}
		checked("P19")
		if strings.Contains(k, " balance ") {
			if r.gotN != r.inN {
				bad("P19", "open-close", "%s: %d streams were told to open and %d to close, all have ended", k, r.gotN, r.inN)
			}
			continue
		}
		if r.gotN != r.inN || len(r.got) != len(r.out) {
			bad("P19", "count", "%s: the observer was told of %d, %d occurred", k, r.gotN+len(r.got), r.inN+len(r.out))
			continue
		}
		if len(r.in) != len(r.out) {
			continue // P16
		}
		for _, l := range [][]time.Duration{r.got, r.in, r.out} {
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		}
		for i := range r.got {
			if r.got[i] < r.in[i] || r.got[i] > r.out[i] {
				bad("P19", "duration", "%s: the observer was told of durations %v, they were between %v and %v", k, r.got, r.in, r.out)
				break
			}
		}
	}
}

// ---- traces --------------------------------------------------------------------

// simTracers makes the spans of a side.
type simTracers struct {
	embedded.TracerProvider
	m   *mw
	srv bool
}

func (p simTracers) Tracer(string, ...trace.TracerOption) trace.Tracer { return simTracer{p: p} }

type simTracer struct {
	embedded.Tracer
	p simTracers
}

type simSpan struct {
	noop.Span
	sc     trace.SpanContext
	parent trace.SpanContext
	srv    bool
	kind   trace.SpanKind
	name   string
	node   uint32
	op     *callOp
	hs     *hStart
	ended  int
	status []codes.Code
}

func (t simTracer) Start(ctx context.Context, name string, opts ...trace.SpanStartOption) (context.Context, trace.Span) {
	m := t.p.m
	c := trace.NewSpanStartConfig(opts...)
	s := &simSpan{srv: t.p.srv, name: name, node: here(), kind: c.SpanKind(), parent: trace.SpanContextFromContext(ctx)}
	m.spans = append(m.spans, s)
	var sid trace.SpanID
	binary.BigEndian.PutUint64(sid[:], uint64(len(m.spans)))
	tid := s.parent.TraceID()
	if !tid.IsValid() {
		binary.BigEndian.PutUint64(tid[:], uint64(len(m.spans)))
	}
	s.sc = trace.NewSpanContext(trace.SpanContextConfig{TraceID: tid, SpanID: sid, TraceFlags: trace.FlagsSampled})
	if l := lvlOf(ctx); l != nil {
		s.op = l.op
	}
	m.bySpan[sid.String()] = s
	return trace.ContextWithSpan(ctx, s), s
}

func (s *simSpan) SpanContext() trace.SpanContext { return s.sc }
func (s *simSpan) IsRecording() bool              { return s.ended == 0 }
func (s *simSpan) End(...trace.SpanEndOption)     { s.ended++ }
func (s *simSpan) SetStatus(c codes.Code, _ string) {
	s.status = append(s.status, c)
}
func (s *simSpan) SetAttributes(...attribute.KeyValue) {}

// checkSpan: the implementation runs within a span which descends from one of
// the caller's.
func (m *mw) checkSpan(ctx context.Context, op *callOp, hs *hStart) {
	if !m.otel {
		return
	}
	checked("P19")
	s, _ := trace.SpanFromContext(ctx).(*simSpan)
	if s == nil || !s.srv {
		bad("P19", "no-span", "%s runs %s outside of any span of the server", hs.s.id, op)
		return
	}
	s.hs, s.op = hs, op
	if s.ended > 0 {
		bad("P19", "span-ended", "%s runs %s in a span which has ended", hs.s.id, op)
	}
	if op.multi {
		if s.parent.IsValid() {
			bad("P19", "wrong-trace", "%s runs %s, which has no trace, in that of another call", hs.s.id, op)
		}
		return
	}
	p := m.bySpan[s.parent.SpanID().String()]
	if p == nil || p.srv || p.op != op {
		bad("P19", "wrong-trace", "%s runs %s in a span which descends from %v, none of its caller's", hs.s.id, op, s.parent.SpanID())
	} else if s.parent.TraceID() != p.sc.TraceID() {
		bad("P19", "wrong-trace", "%s runs %s in another trace than its caller's", hs.s.id, op)
	}
}

// checkSpans: every span has ended once, with the outcome of its call.
func (m *mw) checkSpans() {
	w := m.w
	for i, s := range m.spans {
		if w.net.dead[s.node] || s.op == nil {
			continue
		}
		op := s.op
		checked("P19")
		if op.str != nil || !op.done && !s.srv || s.srv && (s.hs == nil || !s.hs.end.ok()) {
			continue
		}
		if s.ended != 1 {
			bad("P19", "span-end", "span %d (%s) of %s was ended %d times", i+1, s.name, op, s.ended)
			continue
		}
		want := codes.Ok
		if s.srv {
			if op.mwx.srvSwap >= 0 || op.mwx.dup > 0 {
				continue
			}
			if s.hs.err != nil || s.hs.panicked {
				want = codes.Error
			}
		} else {
			if op.mwx.odd() || op.mwx.swap >= 0 || m.retry != nil {
				continue
			}
			if op.err != nil {
				want = codes.Error
			}
		}
		if len(s.status) == 0 || s.status[len(s.status)-1] != want {
			bad("P19", "span-status", "span %d (%s) of %s has the status %v, %v is due", i+1, s.name, op, s.status, want)
		}
		if s.srv != (s.kind == trace.SpanKindServer) || !strings.HasSuffix(s.name, "Sim."+op.method) && !strings.HasSuffix(s.name, "Sim2."+strings.TrimPrefix(op.method, "2")) {
			bad("P19", "span-name", "span %d of %s is a %v named %s", i+1, op, s.kind, s.name)
		}
	}
}
