package main

import (
	"context"
	"errors"
	"math"
	"runtime"
	"strings"
	"time"
	"unicode/utf8"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/verifsim/simpb"
)

const eps = ms

// checkStart looks at a service implementation that has just been invoked.
func (w *world) checkStart(op *callOp, hs *hStart, method string, req *simpb.Req) {
	s := hs.s
	checked("P10")
	if method != op.method {
		bad("P10", "wrong-method", "%s ran %s as %s", s.id, op, method)
	}
	if hs.info != nil {
		svc, m := "Sim", op.method
		if m[0] == '2' {
			svc, m = "Sim2", m[1:]
		}
		if hs.info.Method != m || topicString(hs.info.Topic) != topicString(op.topic) || hs.info.Service != svc {
			bad("P10", "wrong-topic", "%s ran %s as %s.%s%q", s.id, op, hs.info.Service, hs.info.Method, hs.info.Topic)
		}
	}
	checked("P02")
	if op.str == nil && !proto.Equal(req, op.req) {
		bad("P02", "request-altered", "%s got %v for %s, sent %v", s.id, req, op, op.req)
	}
	if op.malformed && len(op.reqIDs) == 1 && op.mwx.dup == 0 {
		bad("P18", "ran-malformed", "%s ran %s, whose request had been mangled", s.id, op)
	}
	// at most once
	if op.multi {
		checked("P07")
		n := 0
		for _, x := range op.starts {
			if x.s == s {
				n++
			}
		}
		if n > op.attempts()+op.mwx.dup {
			badk("P07", "ran-twice", keyIf(op.again, keyTwice), "%s ran %s %d times", s.id, op, n)
		}
	} else {
		checked("P01")
		if len(op.starts) > op.attempts()+op.mwx.dup {
			badk("P01", "ran-twice", op.twiceKey(), "%s ran %d times, last on %s", op, len(op.starts), s.id)
		}
		if isClaimMethod(op.method) {
			ok := false
			for _, c := range op.chosen {
				ok = ok || c.server == s.id
			}
			if !ok {
				bad("P01", "ran-unselected", "%s ran on %s, which the client had not selected (%v)", op, s.id, op.chosen)
			}
		}
	}
	// registered?
	live, strict := hs.ended, false // an implementation may be given a stream that was ended meanwhile
	for _, r := range s.regs {
		if r.method != op.method || topicString(r.topic) != topicString(op.topic) {
			continue
		}
		if r.start.seq < hs.at.seq && (!r.unDone.ok() || !r.unDone.settledBefore(hs.at)) {
			live = true
		}
		if r.start.seq < hs.at.seq && (!r.unDone.ok() || r.forced || s.crashed.ok()) {
			strict = true
		}
	}
	checked("P14")
	if op.mwx.dup > 0 {
		// run again by an interceptor, in the time of the first run
	} else if !live {
		if s.closed.ok() {
			bad("P13", "ran-after-close", "%s ran %s after its %s had returned", s.id, op, closeName(s))
		} else {
			bad("P14", "ghost-handler", "%s ran %s, which is not registered there", s.id, op)
		}
	} else if !strict && op.str == nil {
		bad("P13", "ran-after-shutdown", "%s ran %s after its shutdown had returned", s.id, op)
	}
	if s.closed.ok() {
		checked("P13")
	}
	// what the implementation was told about the call
	checked("P05")
	if hs.head == nil {
		bad("P05", "no-header", "%s ran %s without a header", s.id, op)
	} else {
		op.checkHead(s.id, "ran", hs.head)
	}
	if a, ok := op.arrWall[s.node]; ok && len(op.reqIDs) == 1 && a >= op.expiry {
		bad("P05", "ran-expired", "%s ran %s, which had reached it %v after its expiry", s.id, op, time.Duration(a-op.expiry))
	}
	// a call which its server had in time, but could only start later
	if a, ok := op.arrived[s.node]; ok && len(op.reqIDs) == 1 && w.paused[s.node] == 0 && !w.skewed && w.mw == nil {
		if late := time.Duration(hs.wall.UnixNano() - op.expiry); late > eps+hs.at.busy-a.busy {
			bad("P05", "ran-expired-late", "%s started %s %v after its expiry (here %+v, started %+v)", s.id, op, late, a, hs.at)
		}
	}
	if op.str != nil {
		return
	}
	if !hs.hasDL {
		bad("P05", "no-deadline", "%s ran %s without a deadline", s.id, op)
	} else if len(op.wire) == 1 && len(op.extra) == 0 && !op.mwx.retry {
		slack := op.pubs[0].t - op.t0 + eps
		lo, hi := op.wall.Add(op.eff), op.wall.Add(op.eff).Add(slack)
		if hs.deadline.After(hi) {
			bad("P05", "deadline-late", "%s ran %s with a deadline %v after the caller's", s.id, op, hs.deadline.Sub(lo))
		}
		if hs.deadline.Before(lo.Add(-eps)) {
			bad("P05", "deadline-early", "%s ran %s with a deadline %v before the caller's", s.id, op, lo.Sub(hs.deadline))
		}
	}
}

// attempts is how many requests the call may make: one, except where the
// middleware makes further ones.
func (op *callOp) attempts() int {
	switch x := op.mwx; {
	case x.twice >= 0 || x.srvTwice >= 0:
		return len(op.reqIDs)
	case x.retry:
		return max(1, len(x.tries))
	}
	return 1
}

// mangled is the code of a call one of whose messages was mangled.
func (op *callOp) mangled() psrpc.ErrorCode {
	switch {
	case op.malformed:
		return psrpc.MalformedRequest
	case op.mangledRes > 0:
		return psrpc.MalformedResponse
	}
	return ""
}

func closeName(s *snode) string {
	if s.graceful {
		return "shutdown"
	}
	return "kill"
}

// grpcCodes are the codes which have the same name in both worlds.
var grpcCodes = map[psrpc.ErrorCode]codes.Code{
	psrpc.Canceled: codes.Canceled, psrpc.Unknown: codes.Unknown, psrpc.InvalidArgument: codes.InvalidArgument,
	psrpc.DeadlineExceeded: codes.DeadlineExceeded, psrpc.NotFound: codes.NotFound, psrpc.AlreadyExists: codes.AlreadyExists,
	psrpc.PermissionDenied: codes.PermissionDenied, psrpc.ResourceExhausted: codes.ResourceExhausted,
	psrpc.FailedPrecondition: codes.FailedPrecondition, psrpc.Aborted: codes.Aborted, psrpc.OutOfRange: codes.OutOfRange,
	psrpc.Unimplemented: codes.Unimplemented, psrpc.Internal: codes.Internal, psrpc.Unavailable: codes.Unavailable,
	psrpc.DataLoss: codes.DataLoss, psrpc.Unauthenticated: codes.Unauthenticated,
}

// errCodes are the codes implementations fail with.
var errCodes = []psrpc.ErrorCode{
	psrpc.NotFound, psrpc.Internal, psrpc.InvalidArgument, psrpc.Unavailable, psrpc.DeadlineExceeded, psrpc.Canceled, psrpc.ResourceExhausted,
	psrpc.Unknown, psrpc.AlreadyExists, psrpc.PermissionDenied, psrpc.FailedPrecondition, psrpc.Aborted, psrpc.OutOfRange,
	psrpc.Unimplemented, psrpc.DataLoss, psrpc.Unauthenticated,
}

// wireErr is how an implementation's error travels: code, message, details.
func wireErr(err error) (code psrpc.ErrorCode, msg string, det []*anypb.Any) {
	var e psrpc.Error
	if errors.As(err, &e) {
		return e.Code(), e.Error(), e.DetailsProto()
	}
	if st, ok := grpcStatus(err); ok {
		for c, g := range grpcCodes {
			if g == st.Code() {
				code = c
			}
		}
		return code, st.Message(), st.Proto().Details
	}
	return psrpc.Unknown, err.Error(), nil
}

func sameErr(err error, want error) bool {
	code, msg, det := wireErr(want)
	var e psrpc.Error
	if !errors.As(err, &e) {
		return false
	}
	if e.Code() != code || e.Error() != msg || len(e.DetailsProto()) != len(det) {
		return false
	}
	for i, d := range e.DetailsProto() {
		if !proto.Equal(d, det[i]) {
			return false
		}
	}
	return true
}

// matches: the outcome (res, err) is what the run hs of op produced.
func (op *callOp) matches(hs *hStart, res *simpb.Resp, err error) bool {
	if !hs.end.ok() || op.str != nil {
		return false
	}
	if hs.panicked {
		var e psrpc.Error
		return errors.As(err, &e) && e.Code() == psrpc.Internal && strings.HasPrefix(e.Error(), panicText)
	}
	if hs.err != nil {
		return err != nil && sameErr(err, hs.err)
	}
	if hs.resp != nil && !utf8.ValidString(hs.resp.Text) {
		var e psrpc.Error
		return errors.As(err, &e) && e.Code() == psrpc.MalformedResponse
	}
	if err != nil {
		return false
	}
	want := hs.resp
	if want == nil {
		want = &simpb.Resp{}
	}
	return res != nil && proto.Equal(res, want)
}

func (w *world) checkCalls() {
	for _, op := range w.opList {
		w.checkCall(op)
	}
}

func (w *world) checkCall(op *callOp) {
	if !op.start.ok() || op.c.crashed.ok() {
		return
	}
	if !op.done {
		if op.multi && op.drain != 0 {
			return // its caller was slow
		}
		checked("P03")
		bad("P03", "never-ended", "%s has not ended (limit %v, start %v)", op, op.eff, op.start.t)
		return
	}
	if op.multi && op.drain != 0 {
		if !op.mwx.odd() {
			w.checkMulti(op)
		}
		return
	}
	if op.mwx.odd() {
		w.checkOdd(op)
		return
	}
	// in time?
	checked("P03")
	pauseSlack := w.paused[op.c.node]
	if op.str != nil && op.err != nil && w.ctxErrs() {
		// the server hears of it first, which a full channel may hold up for as
		// long as one message of the stream may take
		pauseSlack += op.str.maxTO
	}
	if op.wd.ok() && op.end.seq > op.wd.seq {
		pauseSlack += op.effHi() - op.eff
		if late := idleSince(op.wd, op.end) - (op.end.busy - op.start.busy) - pauseSlack; late > eps && (len(op.pubs) == 0 || idleSince(op.pubs[0], op.end)-op.eff-pauseSlack > eps) {
			badk("P03", "late", keyIf(w.connecting(op.c.node, op.start), keyNats), "%s ended %v after its limit %v (start %+v pub %+v limit %+v end %+v)", op, late, op.eff, op.start, op.pubs, op.wd, op.end)
		}
	}
	if op.cancelM.ok() && op.end.seq > op.cancelM.seq {
		if late := idleSince(op.cancelM, op.end) - pauseSlack; late > eps {
			badk("P03", "late-after-cancel", keyIf(w.connecting(op.c.node, op.start), keyNats), "%s ended %v after it was cancelled", op, late)
		}
	}
	if op.str != nil {
		w.checkOpen(op)
	} else if op.multi {
		w.checkMulti(op)
	} else {
		w.checkUnary(op)
	}
	w.checkAvailable(op)
}

func (w *world) checkUnary(op *callOp) {
	var match *hStart
	for _, hs := range op.starts {
		if op.matches(hs, op.resp, op.err) && hs.end.seq < op.end.seq {
			match = hs
		}
	}
	checked("P02")
	if op.err == nil {
		checked("P01")
		if op.mangled() != "" && len(op.reqIDs) == 1 && len(op.answers) < 2 {
			bad("P18", "mangled-accepted", "%s returned %v, its messages had been mangled", op, op.resp)
		}
		if len(op.starts) == 0 {
			bad("P01", "success-without-run", "%s succeeded but ran nowhere", op)
			return
		}
		if x := op.mwx.swapped; x != nil {
			if !proto.Equal(op.resp, x) {
				bad("P16", "wrong-result", "%s returned %v, an interceptor had answered %v", op, op.resp, x)
			}
			return
		}
		if match == nil {
			bad("P02", "wrong-answer", "%s returned %v, %s", op, op.resp, op.describeRuns())
		}
		return
	}
	if match != nil {
		return // the implementation's own error
	}
	w.checkErr(op)
}

// checkErr: a failed call says what really happened.
func (w *world) checkErr(op *callOp) {
	retried := len(op.reqIDs) > 1
	limit := op.t0 + op.eff
	checked("P03")
	var e psrpc.Error
	if !errors.As(op.err, &e) {
		bad("P03", "untyped-error", "%s failed with %T %v", op, op.err, op.err)
		return
	}
	code, msg := e.Code(), e.Error()
	for _, hs := range op.starts {
		// an answer with the right code but altered text or details
		if hs.end.ok() && hs.err != nil && hs.end.seq < op.end.seq && msg != "" && strings.Contains(msg, op.errText(hs.s)) && op.beh.msg != "" {
			bad("P02", "error-altered", "%s failed with %q %q, implementation returned %v", op, code, msg, hs.err)
			return
		}
	}
	at := op.selOpts().AffinityTimeout
	selEnd := limit
	if at > 0 && op.t0+at < selEnd {
		selEnd = op.t0 + at
	}
	cancelled := op.cancelM.ok() && op.cancelM.seq < op.end.seq
	switch {
	case msg == psrpc.ErrRequestTimedOut.Error() && code == psrpc.DeadlineExceeded:
		if op.end.t < limit {
			bad("P03", "timeout-early", "%s timed out %v before its limit %v", op, limit-op.end.t, op.eff)
		}
	case msg == psrpc.ErrRequestCanceled.Error() && code == psrpc.Canceled:
		if !cancelled {
			bad("P03", "bogus-cancel", "%s reports cancelled, nobody cancelled it", op)
		}
	case msg == psrpc.ErrNoResponse.Error() && code == psrpc.Unavailable:
		if !isClaimMethod(op.method) {
			bad("P03", "bogus-noresponse", "%s needs no selection but reports no response", op)
		}
		if op.end.t < selEnd && !cancelled {
			bad("P06", "gave-up-early", "%s reports no response %v before its selection could end", op, selEnd-op.end.t)
		}
		for _, o := range op.offers {
			if !retried && o.at.settledBefore(op.end) && w.undisturbed(op) {
				bad("P03", "bogus-noresponse", "%s reports no response, %s had answered at %v", op, o.server, o.at.t)
			}
		}
	case strings.HasPrefix(msg, "no servers available (received") && code == psrpc.Unavailable:
		if op.end.t < selEnd && !cancelled {
			lo := selEnd
			sc := op.selOpts().ShortCircuitTimeout
			for _, o := range op.offers {
				if sc > 0 && o.aff > 0 && o.aff >= op.selOpts().MinimumAffinity && o.at.t+sc < lo {
					lo = o.at.t + sc
				}
			}
			if op.end.t < lo {
				bad("P06", "gave-up-early", "%s gave up %v before its selection could end", op, lo-op.end.t)
			}
		}
		if len(op.offers) == 0 {
			bad("P03", "bogus-unavailable", "%s: %s, but no offer had reached it", op, msg)
		}
	case strings.Contains(msg, errSimPublish.Error()) && code == psrpc.Internal:
		if !op.pubFail {
			bad("P03", "bogus-internal", "%s: %s, but no publish of it failed", op, msg)
		}
	case w.ctxErrs() && msg == context.DeadlineExceeded.Error() && code == psrpc.Internal:
		// it could not be published in time
		if op.end.t < limit {
			bad("P03", "timeout-early", "%s timed out %v before its limit %v", op, limit-op.end.t, op.eff)
		}
	case w.ctxErrs() && msg == context.Canceled.Error() && code == psrpc.Internal:
		if !cancelled {
			bad("P03", "bogus-cancel", "%s reports cancelled, nobody cancelled it", op)
		}
	case msg == psrpc.ErrClientClosed.Error() && code == psrpc.Canceled:
		if !op.c.closing.ok() || op.c.closing.seq > op.end.seq {
			bad("P14", "bogus-closed", "%s: client closed, but it is open", op)
		}
	case msg == errSelNone.Error():
		if !op.selFunc {
			bad("P03", "unexpected-error", "%s: %s", op, msg)
		}
	case code == psrpc.MalformedRequest && (op.malformed || op.badReq):
	case code == psrpc.MalformedResponse && op.mangledRes > 0:
	default:
		if len(op.starts) > 0 {
			bad("P02", "wrong-error", "%s failed with %q %q, %s", op, code, msg, op.describeRuns())
		} else {
			bad("P03", "unexpected-error", "%s failed with %q %q", op, code, msg)
		}
	}
	if op.c.closing.ok() && op.c.closed.ok() && op.c.closed.seq < op.start.seq && msg != psrpc.ErrClientClosed.Error() {
		bad("P14", "closed-client-used", "%s on a closed client reports %q", op, msg)
	}
}

// undisturbed: nothing of this run may have kept the client from reading on.
func (w *world) undisturbed(op *callOp) bool {
	c := op.c
	return w.paused[c.node] == 0 && !c.crashed.ok() && !w.slowCli && !w.net.congested && (!c.closing.ok() || op.end.ok() && op.end.seq < c.closing.seq)
}

// unhurried: nothing but the caller of op may have kept its client from reading on.
func (w *world) unhurried(op *callOp) bool {
	for _, o := range w.opList {
		if o != op && o.c == op.c && (o.multi && o.drain != 0 || o.str != nil) {
			return false
		}
	}
	c := op.c
	return w.paused[c.node] == 0 && !c.crashed.ok() && !w.net.congested && (!c.closing.ok() || op.end.seq < c.closing.seq)
}

func (op *callOp) describeRuns() string {
	var b strings.Builder
	b.WriteString("runs:")
	for _, hs := range op.starts {
		b.WriteString(" " + hs.s.id)
		if hs.end.ok() {
			if hs.err != nil {
				b.WriteString(" error " + hs.err.Error())
			} else {
				b.WriteString(" ok")
			}
		} else {
			b.WriteString(" unfinished")
		}
	}
	return b.String()
}

func (w *world) checkMulti(op *callOp) {
	checked("P07")
	if op.sendErr != nil {
		var e psrpc.Error
		msg := op.sendErr.Error()
		switch {
		case errors.As(op.sendErr, &e) && e.Code() == psrpc.Internal && op.pubFail:
		case errors.As(op.sendErr, &e) && e.Code() == psrpc.MalformedRequest && op.badReq:
		case w.ctxErrs() && msg == context.DeadlineExceeded.Error() && op.end.t >= op.t0+op.eff: // not published in time
		case w.ctxErrs() && msg == context.Canceled.Error() && op.cancelM.ok() && op.cancelM.seq < op.end.seq:
		case errors.As(op.sendErr, &e) && e.Code() == psrpc.Canceled && msg == psrpc.ErrClientClosed.Error():
			if !op.c.closing.ok() || op.c.closing.seq > op.end.seq {
				bad("P14", "bogus-closed", "%s: client closed, but it is open", op)
			}
		default:
			bad("P03", "unexpected-error", "%s failed with %v", op, op.sendErr)
		}
		return
	}
	if op.c.closing.ok() && op.c.closed.ok() && op.c.closed.seq < op.start.seq {
		bad("P14", "closed-client-used", "%s on a closed client succeeded", op)
	}
	limit := op.t0 + op.eff
	cancelled := op.cancelM.ok() && op.cancelM.seq < op.end.seq
	if op.end.t < limit && !cancelled {
		bad("P07", "closed-early", "%s ended %v before its limit", op, limit-op.end.t)
	}
	// each entry stems from one run, each run from one answer
	used := map[*hStart]bool{}
	mangled := op.mangledRes
	for i, r := range op.entries {
		if c, _ := psrpc.GetErrorCode(r.Err); r.Err != nil && c == psrpc.MalformedRequest && op.malformed {
			continue
		} else if r.Err != nil && c == psrpc.MalformedResponse && mangled > 0 {
			mangled--
			continue
		}
		var m *hStart
		for _, hs := range op.starts {
			if !used[hs] && op.matches(hs, r.Result, r.Err) && hs.end.seq < op.entryAt[i].seq {
				m = hs
				break
			}
		}
		if m == nil {
			prop, class := "P07", "entry-twice"
			any := false
			for _, hs := range op.starts {
				any = any || op.matches(hs, r.Result, r.Err)
			}
			if !any {
				prop, class = "P02", "wrong-answer"
			}
			badk(prop, class, keyIf(class == "entry-twice" && op.again, keyTwice), "%s entry %d is (%v, %v), %s", op, i, r.Result, r.Err, op.describeRuns())
			continue
		}
		used[m] = true
	}
	if len(op.entries) > len(op.answers) {
		bad("P07", "entry-from-nowhere", "%s yielded %d entries, %d answers reached the client", op, len(op.entries), len(op.answers))
	}
	if w.undisturbed(op) {
		n := 0
		for _, a := range op.answers {
			if a.at.settledBefore(op.end) {
				n++
			}
		}
		if len(op.entries) < n {
			bad("P07", "entry-lost", "%s yielded %d entries, %d answers had reached the client before its end", op, len(op.entries), n)
		}
	}
	if op.drain != 0 {
		// had it taken all there was to take?
		n := 0
		for _, a := range op.answers {
			if a.at.settledBefore(op.starved) {
				n++
			}
		}
		if len(op.entries) < n && w.unhurried(op) && op.starved.settledBefore(op.end) && idleSince(op.starved, op.end) > eps && op.starved.t < limit && !cancelled {
			bad("P07", "entry-lost", "%s yielded %d entries to its slow caller, %d answers had reached the client %v before its end", op, len(op.entries), n, op.end.t-op.starved.t)
		}
		return
	}
	// every registered server ran it
	if (!w.lossy || op.probe) && !op.malformed {
		for _, s := range w.servers {
			if w.paused[s.node] != 0 && !op.probe || s.crashed.ok() {
				continue
			}
			for _, r := range s.regs {
				if r.method != op.method || topicString(r.topic) != topicString(op.topic) || !r.covers(op.start, op.end) {
					continue
				}
				if len(op.pubs) != 1 || op.limitM.t > op.t0+op.eff+eps || op.pubs[0].t+w.net.latBound() > op.limitM.t-5*ms {
					continue
				}
				if a := op.arrived[s.node]; a.ok() && (!a.settledBefore(op.limitM) || r.unStart.ok() && !a.settledBefore(r.unStart)) {
					continue
				} else if !a.ok() && r.unStart.ok() && (!op.pubs[0].settledBefore(r.unStart) || idleSince(op.pubs[0], r.unStart) < w.net.latBound()+5*ms) {
					continue
				}
				ran := false
				for _, hs := range op.starts {
					ran = ran || hs.s == s
				}
				checked("P07")
				if !ran {
					bad("P07", "not-run", "%s never ran on %s, registered there all along", op, s.id)
				}
			}
		}
	}
}

// checkSelection looks at server selection (P06).
func (w *world) checkSelection(op *callOp) {
	if op.multi || op.mwx.odd() || !isClaimMethod(op.method) || len(op.reqIDs) != 1 || !op.done || op.c.crashed.ok() || len(op.pubs) != 1 {
		return
	}
	checked("P06")
	sel := op.selOpts()
	for _, o := range op.offersSd {
		if o.aff < 0 {
			bad("P06", "negative-offer", "%s: %s offered with affinity %v", op, o.server, o.aff)
		}
		if a, ok := op.affs[o.server]; ok && isAffMethod(op.method) && a != o.aff {
			bad("P06", "affinity-altered", "%s: %s offered %v, its affinity is %v", op, o.server, o.aff, a)
		}
	}
	elig := func(o offer) bool { return o.aff > 0 && o.aff >= sel.MinimumAffinity }
	if len(op.chosen) > 1 {
		props := "P06"
		if op.chosen[0].server != op.chosen[1].server { // both are to run it
			props = "P06 P01"
		}
		bad(props, "chose-twice", "%s: selected %v", op, op.chosen)
	}
	d := op.end
	var ch *offer
	if len(op.chosen) > 0 {
		d = op.chosen[0].at
		known := false
		for i := range op.offers {
			o := op.offers[i]
			if o.server == op.chosen[0].server && o.at.seq < d.seq {
				known = true
				ch = &op.offers[i]
			}
		}
		if !known {
			bad("P06", "chose-stranger", "%s: selected %s, offers %v", op, op.chosen[0].server, op.offers)
			return
		}
		if !elig(*ch) {
			bad("P06", "chose-ineligible", "%s: selected %s with affinity %v, minimum %v", op, ch.server, ch.aff, sel.MinimumAffinity)
		}
	} else if op.answered() {
		return
	}
	if !w.undisturbed(op) {
		return
	}
	var first *offer // first eligible
	var ender *offer // the offer that ends the wait at once
	for i := range op.offers {
		o := &op.offers[i]
		if o.at.seq > d.seq || !elig(*o) {
			continue
		}
		if first == nil {
			first = o
		}
		if ender == nil && (sel.AcceptFirstAvailable || sel.MaximumAffinity > 0 && o.aff >= sel.MaximumAffinity) {
			ender = o
		}
	}
	slack := d.busy - op.t0busy + eps
	if ender != nil {
		if ender.at.settledBefore(d) && idleSince(ender.at, d) > eps {
			bad("P06", "waited-too-long", "%s: decided %v after %s's offer ended the wait", op, idleSince(ender.at, d), ender.server)
		}
		// once the caller has given up, an offer may be left unread for a later one
		over := op.cancelM.ok() && op.cancelM.seq < d.seq || d.t >= op.t0+op.eff
		if ch != nil && sel.AcceptFirstAvailable && ch.server != ender.server && !over {
			bad("P06", "not-first", "%s: selected %s, first available was %s", op, ch.server, ender.server)
		}
		if ch == nil && ender.at.settledBefore(d) {
			bad("P06", "nothing-chosen", "%s: selected nobody although %s offered", op, ender.server)
		}
		return
	}
	// waits for the timers
	wait := func(lo time.Duration) time.Duration {
		if sel.AffinityTimeout > 0 {
			lo = min(lo, op.start.t+sel.AffinityTimeout)
		}
		if sel.ShortCircuitTimeout > 0 && first != nil {
			lo = min(lo, first.at.t+sel.ShortCircuitTimeout)
		}
		if op.cancelM.ok() {
			lo = min(lo, op.cancelM.t)
		}
		return lo
	}
	lo, hi := wait(op.t0+op.eff), wait(op.t0+op.effHi())
	if op.pubFail || op.unsent {
		return
	}
	if d.t < lo {
		bad("P06", "decided-early", "%s: decided %v before the wait was over", op, lo-d.t)
	}
	if d.t > hi+slack {
		bad("P06", "waited-too-long", "%s: decided %v after the wait was over, busy for %v", op, d.t-hi, slack)
	}
	if op.selFunc {
		if len(op.selSeen) != 1 {
			bad("P06", "selection-func-calls", "%s: selection function called %d times", op, len(op.selSeen))
			return
		}
		at := op.selAt[0]
		j := 0
		for _, c := range op.selSeen[0] {
			ok := false
			for i := j; i < len(op.offers); i++ {
				o := op.offers[i]
				if o.server == c.ServerID && o.aff == c.Affinity && o.at.seq < at.seq && elig(o) {
					ok, j = true, i+1
					break
				}
			}
			if !ok {
				bad("P06", "selection-func-claims", "%s: selection function was given %v@%v, offers %v", op, c.ServerID, c.Affinity, op.offers)
			}
		}
		n := 0
		for _, o := range op.offers {
			if elig(o) && o.at.settledBefore(at) {
				n++
			}
		}
		if len(op.selSeen[0]) < n {
			bad("P06", "selection-func-claims", "%s: selection function was given %d of %d offers", op, len(op.selSeen[0]), n)
		}
		return
	}
	best := float32(math.Inf(-1))
	for _, o := range op.offers {
		if elig(o) && o.at.settledBefore(d) && o.aff > best {
			best = o.aff
		}
	}
	if ch != nil && ch.aff < best {
		bad("P06", "not-best", "%s: selected %s with affinity %v, %v was offered", op, ch.server, ch.aff, best)
	}
	if ch == nil && best > 0 {
		bad("P06", "nothing-chosen", "%s: selected nobody, %v was offered", op, best)
	}
}

// answered: the call ended with an implementation's answer or on a publish error
func (op *callOp) answered() bool {
	if op.err == nil || op.pubFail {
		return true
	}
	for _, a := range op.answers {
		if a.at.seq < op.end.seq {
			return true
		}
	}
	return false
}

// checkAvailable: with no fault around, a call that can succeed does (P04).
func (w *world) checkAvailable(op *callOp) {
	if op.multi || op.cancelM.ok() || op.badReq || op.mwx.swapped != nil || len(op.reqIDs) > 1 {
		return
	}
	if op.probe { // sent after all trouble had ended
		if op.c.crashed.ok() || op.c.closing.ok() && op.c.closing.seq < op.end.seq {
			return
		}
	} else if w.lossy || !w.undisturbed(op) {
		return
	}
	switch op.beh.kind {
	case bWaitCtx:
		return
	case bPanic:
		if w.mw == nil {
			return
		}
	}
	sel := op.selOpts()
	var cands int
	for _, s := range w.servers {
		for _, r := range s.regs {
			if r.method != op.method || topicString(r.topic) != topicString(op.topic) || r.err != nil || !r.overlaps(op.start, op.end) {
				continue
			}
			if !r.covers(op.start, op.end) || w.paused[s.node] != 0 && !op.probe {
				return
			}
			a := float32(1)
			if x, ok := op.affs[s.id]; ok && isAffMethod(op.method) {
				a = x
			}
			if a <= 0 || a < sel.MinimumAffinity {
				if isQueueMethod(op.method) {
					return
				}
				continue
			}
			cands++
		}
	}
	if cands == 0 {
		return
	}
	lat := w.net.latBound()
	b := op.end.busy - min(op.start.busy, op.t0busy) + 5*ms
	need := 2*lat + op.beh.delay*time.Duration(1+op.mwx.dup) + b
	if isClaimMethod(op.method) {
		if sel.AffinityTimeout > 0 && 2*lat+b > sel.AffinityTimeout || 2*lat+b > op.eff {
			return
		}
		wait := time.Duration(0)
		if !sel.AcceptFirstAvailable {
			wait = op.eff
			if sel.AffinityTimeout > 0 {
				wait = min(wait, sel.AffinityTimeout)
			}
			if sel.ShortCircuitTimeout > 0 {
				wait = min(wait, sel.ShortCircuitTimeout)
			}
		}
		need += 2*lat + wait
	}
	if need > op.eff {
		return
	}
	checked("P04")
	if op.beh.kind == bPanic {
		checked("P18")
	}
	if op.str != nil && op.err == nil {
		return
	}
	if want := op.mangled(); want != "" && op.selFunc {
		return // it may make of it what it likes
	} else if want != "" {
		checked("P18")
		if c, _ := psrpc.GetErrorCode(op.err); op.err == nil || c != want {
			bad("P18", "not-malformed", "%s failed with %v, its messages were mangled, %s is due", op, op.err, want)
		}
		return
	}
	for _, hs := range op.starts {
		if op.str == nil && op.matches(hs, op.resp, op.err) {
			return
		}
	}
	if op.strayed {
		badk("P21", "queue-strayed", keyStray, "%s was given to a process which does not serve it", op)
		return
	}
	props := "P04"
	if op.beh.kind == bPanic || op.beh.kind == bBadResp {
		props = "P04 P18"
	}
	if op.probe && (len(op.offersSd) > len(op.chosen) || len(op.resPubs) > 0) {
		props = "P04 P03" // the client no longer takes in what is sent to it
	}
	bad(props, "call-failed", "%s failed with %v although %d servers could serve it (needs %v of %v); %s", op, op.err, cands, need, op.eff, op.describeRuns())
}

// checkShutdown: what a graceful shutdown owes to the requests it had started.
func (w *world) checkShutdown() {
	for _, s := range w.servers {
		if !s.closed.ok() || !s.graceful || s.crashed.ok() {
			continue
		}
		for _, op := range w.opList {
			w.checkAccepted(s, op)
			for _, hs := range op.starts {
				if hs.s != s || hs.at.seq > s.closing.seq {
					continue
				}
				if op.str != nil || !s.servedUntilClosing(op, hs.at) {
					continue // deregistered on its own; streams are ended, not awaited
				}
				checked("P13")
				if !hs.end.ok() || hs.end.seq > s.closed.seq {
					bad("P13", "shutdown-too-early", "%s: shutdown returned while it was still running %s", s.id, op)
					continue
				}
				answered := false
				for _, p := range op.resPubs {
					answered = answered || p.node == s.node && p.at.seq > hs.end.seq && p.at.seq < s.closed.seq
				}
				if !answered && op.beh.kind != bPanic {
					bad("P13", "shutdown-before-answer", "%s: shutdown returned before the answer to %s was published", s.id, op)
				}
			}
		}
	}
}

// checkAccepted: a request which the server had offered to run when it began
// to shut down is run, if the caller chooses the server in time.
func (w *world) checkAccepted(s *snode, op *callOp) {
	if op.str != nil || op.malformed || len(op.chosen) != 1 || op.chosen[0].server != s.id || len(op.reqIDs) != 1 || op.pubFail || op.unsent {
		return
	}
	if w.lossy || w.net.congested || w.slowCli || w.paused[s.node] != 0 {
		return
	}
	if !s.servedUntilClosing(op, op.chosen[0].at) {
		return
	}
	for _, x := range s.regs {
		if x.method == op.method && topicString(x.topic) == topicString(op.topic) && x.unStart.seq == s.closing.seq && (!x.done.ok() || x.done.seq > op.start.seq) {
			return
		}
	}
	left := time.Duration(op.expiry-op.wire[0].SentAt) - (op.chosen[0].at.t - op.start.t)
	if left < w.net.latMax+w.net.spikeMax+500*ms {
		return
	}
	checked("P13")
	for _, hs := range op.starts {
		if hs.s == s {
			return
		}
	}
	bad("P13", "accepted-not-run", "%s: %s, which it had offered to run before it was shut down, was never run, although it was chosen in time", s.id, op)
}

// checkLeft looks at what clients and servers still hold (P15).
func (w *world) checkIdleState() {
	for _, c := range w.clients {
		if c.err != nil || c.crashed.ok() || c.inflight > 0 || c.closing.ok() {
			continue
		}
		checked("P15")
		if n := c.stateSize(); n > c.baseSt {
			bad("P15", "client-state", "%s keeps %d entries of ended calls", c.id, n-c.baseSt)
		}
		if n := runtime.VerifNodeGoroutines(c.node); n > c.base {
			bad("P15", "client-goroutines", "%s: %d goroutines when idle, %d at start: %v", c.id, n, c.base, runtime.VerifNodeGoFuncs(c.node))
		}
	}
	for _, op := range w.opList {
		if op.parent == nil || !op.done || op.multi && op.drain != 0 || op.c.crashed.ok() || w.paused[op.c.node] != 0 {
			continue
		}
		own := 0
		if op.str != nil {
			own = 1 // the harness's own
		}
		if n := ctxChildren(op.parent); n > own {
			bad("P15", "context-children", "%s has ended, %d contexts hang on its caller's", op, n-own)
		}
	}
	for _, cf := range w.late {
		cf()
	}
}

// checkIdleServers takes every topic from the servers, and compares what is
// left of them with what they were when they were new.
func (w *world) checkIdleServers() {
	if w.fabric != fabricSim && w.fabric != fabricLocal {
		return
	}
	busyAt := map[*snode]bool{}
	for _, op := range w.opList {
		if op.start.ok() && !op.done && !op.c.crashed.ok() {
			return // its requests may still wait to be chosen
		}
		for _, hs := range op.starts {
			if !hs.end.ok() {
				busyAt[hs.s] = true
			}
		}
		if op.str != nil {
			for _, e := range op.str.srvs {
				if !e.shutM.ok() {
					busyAt[e.server] = true
				}
			}
		}
	}
	var idle []*snode
	for _, s := range w.aliveServers() {
		if s.running > 0 || busyAt[s] || w.paused[s.node] != 0 || s.base == 0 {
			continue
		}
		idle = append(idle, s)
		for _, r := range s.regs {
			if len(r.topic) > 0 && r.err == nil && !r.unStart.ok() {
				s.deregister(r)
			}
		}
	}
	sleep(100 * ms)
	for _, s := range idle {
		checked("P15")
		if n := s.stateSize(); n > s.baseSt {
			bad("P15", "server-state", "%s keeps %d entries of ended requests and topics", s.id, n-s.baseSt)
		}
		if n := runtime.VerifNodeGoroutines(s.node); n > s.base {
			bad("P15", "server-goroutines", "%s runs %d goroutines when idle, %d when it was new: %v", s.id, n, s.base, runtime.VerifNodeGoFuncs(s.node))
		}
	}
}

func (w *world) checkClosedState() {
	for _, c := range w.clients {
		if c.err != nil || c.crashed.ok() || !c.closing.ok() {
			continue
		}
		checked("P15")
		if l := w.net.openSubs(c.node); len(l) > 0 {
			bad("P15", "client-subscriptions", "closed %s holds %v", c.id, l)
		}
		if n := runtime.VerifNodeGoroutines(c.node); n > 0 {
			bad("P15", "client-goroutines", "closed %s runs %d goroutines: %v", c.id, n, runtime.VerifNodeGoFuncs(c.node))
		}
	}
	for _, s := range w.servers {
		if s.startErr == nil && (s.crashed.ok() || !s.closing.ok()) {
			continue
		}
		checked("P15")
		if l := w.net.openSubs(s.node); len(l) > 0 {
			bad("P15", "server-subscriptions", "closed %s holds %v", s.id, l)
		}
		if n := runtime.VerifNodeGoroutines(s.node); n > 0 {
			bad("P15", "server-goroutines", "closed %s runs %d goroutines: %v", s.id, n, runtime.VerifNodeGoFuncs(s.node))
		}
	}
}

var _ = internal.Msg{}

// effHi is the time after which the call ends when the process was so busy
// that the deadline of the caller's context had passed before it was set up:
// its timer is the one that counts then, and fires late.
func (op *callOp) effHi() time.Duration {
	if op.ctxTO > op.eff && len(op.pubs) > 0 && op.t0+op.ctxTO <= op.pubs[0].t+op.eff+op.end.busy-op.t0busy {
		return op.ctxTO
	}
	return op.eff
}

// ctxErrs: publishing may take time, and fails with the error of its context.
func (w *world) ctxErrs() bool { return w.fabric == fabricLocal || w.net.slowDen > 0 }

// servedUntilClosing: every registration that may have served the call at that
// time was there until the server was closed.
func (s *snode) servedUntilClosing(op *callOp, at stamp) bool {
	n := 0
	for _, x := range s.regs {
		if x.method != op.method || topicString(x.topic) != topicString(op.topic) || x.err != nil || x.start.seq > at.seq {
			continue
		}
		if x.unStart.ok() && x.unStart.seq != s.closing.seq {
			if x.unDone.ok() && x.unDone.settledBefore(op.start) {
				continue // (what it had taken in may start late in a stalled process)
			}
			return false
		}
		if x.cut.ok() {
			return false
		}
		n++
	}
	return n > 0
}
