package main

import (
	"context"
	"fmt"
	"maps"
	"slices"
	"time"

	"github.com/livekit/psrpc/pkg/metadata"
)

// mdStep is one use of the metadata API on the context of a caller.
type mdStep struct {
	how mdHow
	md  metadata.Metadata
	kv  []string
}

type mdHow int

const (
	mdNew mdHow = iota
	mdWith
	mdAppend
)

func (x mdStep) apply(ctx context.Context) context.Context {
	switch x.how {
	case mdNew:
		return metadata.NewContextWithOutgoingMetadata(ctx, x.md)
	case mdWith:
		return metadata.WithOutgoingMetadata(ctx, x.md)
	}
	return metadata.AppendMetadataToOutgoingContext(ctx, x.kv...)
}

// model is what the step makes of the metadata which the context has.
func (x mdStep) model(md map[string]string) map[string]string {
	if x.how == mdNew {
		return maps.Clone(map[string]string(x.md))
	}
	md = maps.Clone(md)
	if md == nil {
		md = map[string]string{}
	}
	maps.Copy(md, x.md)
	for i := 1; i < len(x.kv); i += 2 {
		md[x.kv[i-1]] = x.kv[i]
	}
	return md
}

// mdCtx is a context with metadata which several calls use.
type mdCtx struct {
	ctx context.Context
	md  map[string]string
}

func (w *world) drawStep(tag string) (x mdStep) {
	x.how = min(mdHow(W(5)), mdAppend)
	n := W(4)
	for i := 0; i < n; i++ {
		k := pick("a", "b", "c", "d", "Key", "key", "", "ü\x00")
		v := pick(tag, tag, fmt.Sprintf("%s-%d", tag, W(1000)), "")
		if x.how == mdAppend {
			x.kv = append(x.kv, k, v)
			continue
		}
		if x.md == nil {
			x.md = metadata.Metadata{}
		}
		x.md[k] = v
	}
	if len(x.kv) > 0 && WP(1, 8) {
		x.kv = append(x.kv, "odd")
	}
	return x
}

// drawMetadata gives the call metadata of its own, some that other calls have
// too, or some of both.
func (op *callOp) drawMetadata() {
	w := op.c.w
	var md map[string]string
	op.mdSteps = nil
	if len(w.mds) > 0 && WP(1, 2) {
		b := w.mds[W(len(w.mds))]
		op.mdFrom, md = b.ctx, b.md
	}
	for i := W(4); i > 0; i-- {
		x := w.drawStep(fmt.Sprintf("v%d", op.id))
		op.mdSteps, md = append(op.mdSteps, x), x.model(md)
	}
	if op.str != nil {
		x := mdStep{how: mdWith, md: metadata.Metadata{"sid": fmt.Sprint(op.id)}}
		if WP(1, 2) {
			x = mdStep{how: mdAppend, kv: []string{"sid", fmt.Sprint(op.id)}}
		}
		op.mdSteps, md = append(op.mdSteps, x), x.model(md)
	}
	op.md = md
}

// drawContexts makes the contexts which calls share, some from each other.
func (w *world) drawContexts() {
	for i := W(8); i > 0; i-- {
		b := mdCtx{ctx: context.Background()}
		if len(w.mds) > 0 && WP(5, 6) {
			b = w.mds[len(w.mds)-1-W(len(w.mds))*W(2)]
		}
		x := w.drawStep(fmt.Sprintf("s%d", i))
		w.mds = append(w.mds, mdCtx{x.apply(b.ctx), x.model(b.md)})
	}
}

// checkHead looks at what an implementation is told of the call.
func (op *callOp) checkHead(who, what string, head *metadata.Header) {
	if head.RemoteID != op.c.id {
		bad("P05", "wrong-caller", "%s %s %s as a call of %q", who, what, op, head.RemoteID)
	}
	if len(op.sentAts) > 0 && !slices.Contains(op.sentAts, head.SentAt.UnixNano()) {
		bad("P05", "wrong-send-time", "%s %s %s, sent %v ago by its header", who, what, op, time.Since(head.SentAt))
	}
	op.checkMD(who, what, head.Metadata)
}

// checkMD looks at the metadata which an implementation is told, and scribbles
// over it.
func (op *callOp) checkMD(who, what string, md metadata.Metadata) {
	w := op.c.w
	if w.mw != nil && w.mw.otel { // adds its own
		delete(md, "traceparent")
		delete(md, "tracestate")
	}
	if !maps.Equal(map[string]string(md), op.md) {
		bad("P05", "wrong-metadata", "%s %s %s with metadata %q, sent %q", who, what, op, md, op.md)
	}
	for k := range md {
		md[k] = "scribbled"
	}
	if md != nil {
		md["scribble"] = "x"
	}
}
