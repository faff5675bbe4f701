package main

import (
	"fmt"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/verifsim/simpb"
)

// noisy: messages nobody meant to send are about in this run.
var noisy bool

// useNoise makes the network yield messages which are undecodable, of another
// type, or for nobody, and mangle the payload of some which are not.
func (w *world) useNoise(e *env) {
	noisy = true
	n := w.net
	n.mangleDen = cpick(e.cfgRng, 0, 10, 40)
	prev := n.onDeliver
	n.onDeliver = func(s *simSub, p *pub) {
		if prev != nil {
			prev(s, p)
		}
		if p.mangled != nil {
			p.mangled.reached = append(p.mangled.reached, reach{s.node, mark()})
		}
		w.recent = append(w.recent, delivery{s, p})
		if len(w.recent) > 100 {
			w.recent = w.recent[40:]
		}
	}
}

type delivery struct {
	s *simSub
	p *pub
}

// reach is the arrival of a message at a node.
type reach struct {
	node uint32
	at   stamp
}

// errMalformed is the error of all messages that have been mangled.
var errMalformed = psrpc.NewError(psrpc.MalformedRequest, proto.Unmarshal(garbage[:1], &simpb.CMsg{}))

var garbage = []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x07}

// mangle alters the payload of a message on its way, so that it can no longer
// be decoded.
func (w *world) mangle(p *pub) {
	n := w.net
	if n.mangleDen == 0 || n.noFaults || p.failed {
		return
	}
	switch m := p.msg.(type) {
	case *internal.Request:
		op := w.byReq[m.RequestId]
		if op == nil || !FP(1, n.mangleDen) {
			return
		}
		op.malformed = true
		c := proto.Clone(m).(*internal.Request)
		c.RawRequest = garbage[:1+F(len(garbage))]
		p.raw, _ = encodeMsg(c, p.ch.Local)
		count("fault:request_mangled")
		logf("pub#%d its request is mangled", p.id)
	case *internal.Response:
		op := w.byReq[m.RequestId]
		if op == nil || m.Code != "" || m.Error != "" || !FP(1, n.mangleDen) {
			return
		}
		op.mangledRes++
		c := proto.Clone(m).(*internal.Response)
		c.RawResponse = garbage[:1+F(len(garbage))]
		p.raw, _ = encodeMsg(c, p.ch.Local)
		count("fault:response_mangled")
		logf("pub#%d its response is mangled", p.id)
	case *internal.Stream:
		var u simpb.CMsg
		b := m.GetMessage()
		if b == nil || proto.Unmarshal(b.RawMessage, &u) != nil || w.msgs[u.Id] == nil || !FP(1, n.mangleDen) {
			return
		}
		p.mangled = w.msgs[u.Id]
		p.mangled.mangled = append(p.mangled.mangled, mark())
		c := proto.Clone(m).(*internal.Stream)
		c.Body.(*internal.Stream_Message).Message.RawMessage = garbage[:1+F(len(garbage))]
		p.raw, _ = encodeMsg(c, p.ch.Local)
		count("fault:stream_message_mangled")
		logf("pub#%d its message %d is mangled", p.id, u.Id)
	}
}

// noise injects messages until it is stopped.
func (w *world) noise(gap time.Duration, stop *bool) {
	for i := 0; i < 60 && !*stop; i++ {
		sleep(time.Duration(F(int(gap))))
		for k := 1 + F(4); k > 0; k-- {
			w.inject()
		}
	}
}

func (w *world) inject() {
	var open []*simSub
	for _, s := range w.net.order {
		if s.isOpen && !w.net.dead[s.node] && !w.net.cut[s.node] {
			open = append(open, s)
		}
	}
	if len(open) == 0 {
		return
	}
	s := open[F(len(open))]
	// one that was sent here, or anywhere
	var like *pub
	arrived := false
	var here []*pub
	for _, d := range w.recent {
		if d.s == s {
			here = append(here, d.p)
		}
	}
	if len(here) > 0 && F(4) > 0 {
		like, arrived = here[F(len(here))], true
	} else if len(w.recent) > 0 {
		like = w.recent[F(len(w.recent))].p
	}
	var raw []byte
	kind := ""
	sid := fmt.Sprintf("noise-%d", w.net.nPub)
	switch k := F(8); {
	case k == 0 || like == nil:
		kind = "garbage"
		raw = make([]byte, F(40))
		for i := range raw {
			raw[i] = byte(F(256))
		}
		// not by chance a message
		if m := decodeMsg(raw); m != nil && len(raw) > 0 {
			raw = garbage
		}
	case k == 1:
		kind = "truncated"
		raw = append([]byte(nil), like.raw[:F(len(like.raw))]...)
		if m := decodeMsg(raw); m != nil { // still one
			raw = raw[:0]
		}
	case k == 2:
		kind = "unknown-type"
		v, _ := proto.Marshal(like.msg)
		raw, _ = proto.Marshal(&internal.Msg{TypeUrl: []string{"", "x", "type.googleapis.com/", "type.googleapis.com/nobody.Knows", "/internal.Request/"}[F(5)], Value: v, Channel: s.ch.Local})
	case k == 3:
		kind = "other-type"
		other := []proto.Message{&internal.Request{RequestId: sid}, &internal.Response{RequestId: sid}, &internal.ClaimRequest{RequestId: sid}, &internal.ClaimResponse{RequestId: sid}, &internal.Stream{StreamId: sid}}
		m := other[F(len(other))]
		if _, ok := m.(*internal.Request); ok && proto.MessageName(like.msg) == proto.MessageName(m) {
			m = other[4]
		}
		raw, _ = encodeMsg(m, s.ch.Local)
	case k == 4:
		kind = "other-channel"
		v, _ := proto.Marshal(&internal.Response{RequestId: sid})
		raw, _ = proto.Marshal(&internal.Msg{TypeUrl: "type.googleapis.com/internal.Response", Value: v, Channel: "nobody's"})
	case k <= 6:
		kind = "for-nobody"
		raw = w.stray(like, s, sid)
	default:
		kind = "again"
		switch m := like.msg.(type) {
		case *internal.ClaimResponse:
			raw = like.raw
		case *internal.Response:
			if op := w.byReq[m.RequestId]; op != nil && !op.multi {
				raw = like.raw
			}
		case *internal.Stream:
			if m.GetAck() != nil || m.GetClose() != nil {
				raw = like.raw
			}
		}
		if !arrived {
			raw = nil
		}
		if raw == nil {
			kind, raw = "for-nobody", w.stray(like, s, sid)
		}
	}
	checked("P18")
	count("fault:noise_" + kind)
	w.net.nPub++
	p := &pub{id: w.net.nPub, key: s.key, raw: raw, at: mark()}
	logf("pub#%d noise %s, %d bytes to sub%d", p.id, kind, len(raw), s.id)
	s.q = append(s.q, p)
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

// stray is a message like another one, but for nobody.
func (w *world) stray(like *pub, s *simSub, sid string) []byte {
	c := proto.Clone(like.msg)
	soon := time.Now().Add(time.Second).UnixNano()
	switch m := c.(type) {
	case *internal.Request:
		m.RequestId, m.ClientId, m.RawRequest, m.Expiry = sid, []string{"nobody", ""}[F(2)], garbage, soon
	case *internal.Response:
		m.RequestId = sid
	case *internal.ClaimRequest:
		m.RequestId, m.ServerId = sid, "nobody"
	case *internal.ClaimResponse:
		m.RequestId = sid
	case *internal.Stream:
		m.RequestId, m.Expiry = sid, soon
		id := m.StreamId
		m.StreamId = sid
		switch F(5) {
		case 0:
			m.Body = nil
		case 1:
			m.Body = &internal.Stream_Ack{Ack: &internal.StreamAck{}}
			m.StreamId = id // of a stream, but of none of its messages
		case 2:
			m.Body = &internal.Stream_Close{}
		case 3:
			m.Body = &internal.Stream_Message{Message: &internal.StreamMessage{RawMessage: garbage}}
		case 4:
			if m.GetOpen() != nil {
				m.Body = &internal.Stream_Message{}
			}
		}
	}
	raw, _ := encodeMsg(c, s.ch.Local)
	return raw
}
