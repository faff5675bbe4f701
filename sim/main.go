package main

import (
	"github.com/go-logr/logr/funcr"

	"context"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal"
	"github.com/livekit/psrpc/internal/verifsim/simpb"
	"github.com/livekit/psrpc/pkg/metadata"
)

// scenarios: the number is the first harness byte of the header.
var scenarios = map[byte]struct {
	name string
	run  func(e *env)
}{}

func scenario(n byte, name string, run func(e *env)) {
	scenarios[n] = struct {
		name string
		run  func(e *env)
	}{name, run}
}

// env is what a scenario works with.
type env struct {
	*cfgRng
	focus int // number of the property the run is for; 0: any
	sched string
	mw    bool // with middleware
}

type result struct {
	Scenario   string
	Violations []violation
	Counts     map[string]uint64
	Checked    map[string]uint64
	LogHash    uint64
	Events     uint64
	SimNs      int64
	BusyNs     int64
	Picks      uint64
	Switches   uint64
	Yields     uint64
	Holds      uint64
	YieldPts   uint64
	Stalls     uint64
	Jumps      uint64
	Selects    uint64
	SchedHash  uint64
	Overflow   bool
	Goroutines int
	Log        []string `json:",omitempty"`
}

func grpcStatus(err error) (*status.Status, bool) {
	st, ok := status.FromError(err)
	if !ok || st == nil || st.Code() == 0 {
		return nil, false
	}
	return st, true
}

// warmUp lets every lazily built table exist before the run starts.
func warmUp() {
	msgs := []proto.Message{
		&simpb.Req{Id: 1, Text: "x", Blob: []byte{1}, Nums: []int32{1}, Kv: map[string]string{"a": "b"}},
		&simpb.Resp{Id: 1, Server: "x", Text: "x", Blob: []byte{1}}, &simpb.Upd{Id: 1, Pub: "p", Blob: []byte{1}},
		&simpb.CMsg{Id: 1, Blob: []byte{1}}, &simpb.SMsg{Id: 1, Blob: []byte{1}}, &simpb.Ignored{},
		&internal.Request{RequestId: "x", Metadata: map[string]string{"a": "b"}, RawRequest: []byte{1}},
		&internal.Response{RequestId: "x", RawResponse: []byte{1}},
		&internal.ClaimRequest{RequestId: "x", Affinity: 1}, &internal.ClaimResponse{RequestId: "x"},
		&internal.Stream{StreamId: "x", Body: &internal.Stream_Open{Open: &internal.StreamOpen{Metadata: map[string]string{"a": "b"}}}},
		&internal.Stream{StreamId: "x", Body: &internal.Stream_Message{Message: &internal.StreamMessage{}}},
		&internal.Stream{StreamId: "x", Body: &internal.Stream_Ack{Ack: &internal.StreamAck{}}},
		&internal.Stream{StreamId: "x", Body: &internal.Stream_Close{Close: &internal.StreamClose{}}},
		&internal.Channel{Channel: "x"},
	}
	for _, m := range msgs {
		b, _ := encodeMsg(m, "x")
		var im internal.Msg
		_ = proto.Unmarshal(b, &im)
		n := m.ProtoReflect().New().Interface()
		_ = proto.Unmarshal(im.Value, n)
		_ = proto.Equal(m, n)
		_ = proto.Clone(m)
		_ = fmt.Sprint(m)
	}
	e := psrpc.NewErrorf(psrpc.Internal, "x")
	_ = e.GRPCStatus()
	_ = psrpc.NewErrorFromResponse("x", "y").DetailsProto()
	ctx := metadata.NewContextWithOutgoingMetadata(context.Background(), metadata.Metadata{"a": "b"})
	_ = metadata.OutgoingContextMetadata(ctx)
}

func main() {
	debug.SetGCPercent(-1)
	h := runtime.VerifHeader()
	sc, ok := scenarios[h[0]]
	if !ok {
		for _, n := range []byte{1} {
			sc, ok = scenarios[n]
		}
	}
	tracing = h[1] == 1
	if tracing {
		psrpc.SetLogger(funcr.New(func(prefix, args string) {
			fmt.Fprintf(os.Stderr, "%12.6f log: %s\n", float64(now())/1e9, args)
		}, funcr.Options{}))
	}
	e := &env{cfgRng: &cfgRng{runtime.VerifSeed() ^ uint64(h[0])<<56 ^ 0x1234567}, focus: int(h[2])}
	warmUp()
	e.schedule()
	logf("scenario %s seed %d %s", sc.name, runtime.VerifSeed(), e.sched)
	sc.run(e)
	runtime.VerifStop()
	finish(sc.name)
}

// schedule draws how this run schedules and how fast its clock runs.
func (e *env) schedule() {
	mode := cpick(e.cfgRng, 0, 0, 1, 1, 2, 2, 3)
	yieldInv := cpick(e.cfgRng, 0, 3, 10, 30, 100, 400)
	randInv := cpick(e.cfgRng, 4, 20, 100)
	delta := cpick(e.cfgRng, 100, 300, 1000, 3000)
	stallInv := cpick(e.cfgRng, 0, 0, 50, 300, 2000)
	stallMax := cpick(e.cfgRng, 200, 2000, 20000)
	pctInv := cpick(e.cfgRng, 30, 200, 1000)
	e.sched = fmt.Sprintf("mode=%d yield=1/%d rand=1/%d step=%dns stall=1/%d*%dus pct=1/%d", mode, yieldInv, randInv, delta, stallInv, stallMax, pctInv)
	h := &cfgRng{runtime.VerifSeed() ^ 0x484f4c44}
	if h.n(2) == 0 {
		salt, mod, inv, most := h.next(), cpick(h, 2, 8, 32, 128), cpick(h, 1, 4, 16), cpick(h, 50, 400, 3000)
		inv = max(inv, 16/mod)
		e.sched += fmt.Sprintf(" hold=1/%d of 1/%d*%dus", inv, mod, most)
		runtime.VerifHold(uint32(salt), uint32(mod), uint32(inv), uint32(most))
	}
	runtime.VerifStart(mode, uint32(yieldInv), uint32(randInv), int64(delta), uint32(stallInv), uint32(stallMax), uint32(pctInv), 3000000)
}

func finish(name string) {
	st := runtime.VerifStats()
	r := result{
		Scenario: name, Violations: violations, Counts: counts, Checked: checkedN, LogHash: logHash, Events: nEvents,
		SimNs: int64(now()), BusyNs: int64(busy()), Picks: st.Picks, Switches: st.Switches, Yields: st.Yields, Holds: st.Holds, YieldPts: st.YieldPoints,
		Stalls: st.Stalls, Jumps: st.Jumps, Selects: st.Selects, SchedHash: st.SchedHash, Overflow: st.Overflow,
		Goroutines: runtime.NumGoroutine(),
	}
	if len(violations) > 0 {
		r.Log = traceOut
	}
	b, err := json.Marshal(&r)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append([]byte("RESULT "), append(b, '\n')...))
	os.Exit(0)
}

// waitUntil polls until cond holds or d has passed.
func waitUntil(d time.Duration, cond func() bool) bool {
	end := now() + d
	for !cond() {
		if now() >= end {
			return cond()
		}
		sleep(10 * ms)
	}
	return true
}
