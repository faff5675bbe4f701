package main

// scen is one way to exercise a property: a scenario of the simulator, the
// focus byte that biases its workload, and its share of the runs.
type scen struct {
	sc, focus byte
	weight    int
}

type propCheck struct {
	id   string
	mix  []scen
	rule string
}

var (
	realCore  = []string{"github.com/livekit/psrpc (all packages, from /repo's working tree)", "generated client and server stubs (by the tree's protoc-gen-psrpc)", "Go runtime, channels, context, sync, protobuf, grpc status"}
	simCore   = []string{"goroutine scheduler, clock, timers and randomness: simulated", "service implementations, callers, publishers and subscribers: harness"}
	simTCP    = "TCP connections: simulated, with latency, cuts, resets, torn writes, stalls, refused dials"
	simBroker = "message transport: simulated broker with latency, loss, reordering between senders, partitions, slow and failing operations"
)

// components lists what ran real code and what ran a stand-in.
func (p *propCheck) components() (real, stubs []string) {
	on := map[byte]bool{}
	for _, s := range p.mix {
		on[s.sc] = true
	}
	any := func(l ...byte) bool {
		for _, x := range l {
			if on[x] {
				return true
			}
		}
		return false
	}
	real, stubs = append(real, realCore...), append(stubs, simCore...)
	if any(1, 2, 3, 8, 14, 15, 16) {
		stubs = append(stubs, simBroker)
	}
	if any(14, 15) {
		real = append(real, "pkg/middleware: retries, metrics, panic recovery; the OpenTelemetry interceptors")
		stubs = append(stubs, "recording interceptors, hooks, metrics observer and tracer: harness")
	}
	if any(16) {
		real = append(real, "testutils: latency and loss test buses")
	}
	if any(4, 5, 6, 16) {
		real = append(real, "the local message bus")
	}
	if any(7, 10, 12) {
		real = append(real, "the Redis message bus", "the go-redis client (pool, retries, pub/sub reconnection, both protocol versions)")
		stubs = append(stubs, "Redis server: simulated (SUBSCRIBE, UNSUBSCRIBE, PUBLISH, SET NX with expiry)")
	}
	if any(9, 11, 13) {
		real = append(real, "the NATS message bus", "the nats.go client (parser, write buffer, reconnection, delivery goroutines)")
		stubs = append(stubs, "NATS server: simulated (INFO, CONNECT, PING, SUB with queue groups, UNSUB, PUB, HPUB)")
	}
	if any(7, 9, 10, 11, 12, 13) {
		stubs = append(stubs, simTCP)
	}
	return
}

var propChecks = []propCheck{
	{id: "P01", mix: []scen{{1, 1, 4}, {1, 0, 1}, {10, 1, 1}, {11, 1, 1}},
		rule: "a run counts when at least one single-server request was decided in it and its history (hash of all observed events with their times) differs from that of every other run"},
	{id: "P02", mix: []scen{{1, 0, 4}, {5, 0, 1}, {10, 0, 1}, {11, 0, 1}, {14, 0, 1}},
		rule: "a run counts when at least one call's outcome was compared with what its implementation returned, and its history is new"},
	{id: "P03", mix: []scen{{1, 3, 4}, {2, 3, 5}, {5, 3, 1}, {6, 3, 1}, {10, 3, 1}, {12, 3, 1}, {13, 3, 1}},
		rule: "a run counts when at least one call's end was compared with its time limit, and its history is new"},
	{id: "P04", mix: []scen{{1, 4, 4}, {2, 4, 2}, {5, 4, 1}, {10, 4, 1}, {12, 4, 1}},
		rule: "a run counts when at least one call that had to succeed was made in it, and its history is new"},
	{id: "P05", mix: []scen{{1, 5, 4}, {2, 5, 2}, {14, 5, 1}},
		rule: "a run counts when at least one implementation's context was compared with its caller's, and its history is new"},
	{id: "P06", mix: []scen{{1, 6, 4}, {2, 6, 1}},
		rule: "a run counts when at least one server selection was compared with the rules, and its history is new"},
	{id: "P07", mix: []scen{{1, 7, 4}, {5, 7, 1}, {10, 7, 1}, {11, 7, 1}, {14, 7, 1}},
		rule: "a run counts when at least one multi call was followed to its end, and its history is new"},
	{id: "P08", mix: []scen{{3, 8, 2}, {4, 8, 1}, {7, 8, 1}, {9, 8, 1}},
		rule: "a run counts when at least one published message was followed to the subscriptions it had to reach, and its history is new"},
	{id: "P09", mix: []scen{{3, 9, 2}, {4, 9, 1}, {7, 9, 1}, {9, 9, 1}},
		rule: "a run counts when at least one message published to a queue was followed to its one receiver, and its history is new"},
	{id: "P10", mix: []scen{{1, 10, 3}, {2, 0, 1}, {3, 10, 1}, {9, 10, 1}},
		rule: "a run counts when at least one delivery was compared with its address, and its history is new"},
	{id: "P11", mix: []scen{{2, 11, 4}, {6, 11, 2}, {12, 11, 1}, {13, 11, 1}},
		rule: "a run counts when at least one stream message was followed from its send to its receipt, and its history is new"},
	{id: "P12", mix: []scen{{2, 12, 4}, {6, 12, 2}, {13, 12, 1}, {15, 12, 1}},
		rule: "a run counts when at least one stream's end was compared between its two sides, and its history is new"},
	{id: "P13", mix: []scen{{1, 13, 6}, {2, 13, 2}, {5, 13, 2}, {6, 13, 1}, {8, 13, 2}, {14, 13, 1}},
		rule: "a run counts when at least one server was shut down or killed while calls were made, and its history is new"},
	{id: "P14", mix: []scen{{8, 14, 2}, {1, 14, 2}, {2, 14, 1}, {3, 14, 1}},
		rule: "a run counts when at least one handler's start was compared with its registration, and its history is new"},
	{id: "P15", mix: []scen{{1, 15, 2}, {2, 15, 2}, {3, 15, 1}, {8, 15, 1}, {9, 15, 1}},
		rule: "a run counts when at least one client or server was examined for what it left behind, and its history is new"},
	{id: "P16", mix: []scen{{14, 16, 3}, {15, 16, 2}},
		rule: "a run counts when at least one pass through a chain of interceptors was compared with its configuration, and its history is new"},
	{id: "P17", mix: []scen{{14, 17, 3}, {15, 17, 1}},
		rule: "a run counts when at least one sequence of attempts was compared with the retry configuration, and its history is new"},
	{id: "P18", mix: []scen{{14, 18, 4}, {15, 18, 4}, {4, 18, 1}, {7, 18, 1}, {9, 18, 1}},
		rule: "a run counts when at least one message nobody meant to send was injected into it, and its history is new"},
	{id: "P19", mix: []scen{{14, 19, 1}, {15, 19, 1}},
		rule: "a run counts when at least one reported call, stream event or span was compared with what happened, and its history is new"},
	{id: "P20", mix: []scen{{7, 0, 2}, {7, 8, 1}, {7, 9, 1}},
		rule: "a run counts when at least one message on the Redis bus was followed to the subscriptions it had to reach, and its history is new"},
	{id: "P21", mix: []scen{{9, 0, 2}, {9, 8, 1}, {9, 9, 1}},
		rule: "a run counts when at least one message on the NATS bus was followed to the subscriptions it had to reach, and its history is new"},
	{id: "P22", mix: []scen{{4, 0, 2}, {5, 0, 1}, {6, 0, 1}},
		rule: "a run counts when at least one property of the local bus was decided in it, and its history is new"},
	{id: "P23", mix: []scen{{1, 23, 3}, {2, 23, 3}, {3, 23, 1}, {4, 23, 1}, {6, 23, 2}, {8, 23, 1}, {9, 23, 1}},
		rule: "a run counts when at least one closing operation's return was awaited, and its history is new"},
	{id: "P24", mix: []scen{{16, 0, 1}},
		rule: "a run counts when at least one message was followed up through a test bus, and its history is new"},
}

var commonAssumptions = []string{
	"the simulated clock advances only between scheduling decisions; goroutines are descheduled only at yield points (channel, select, lock operations, and every statement of /repo's packages)",
	"data races at a finer grain than a statement, and weak memory order, are outside what the simulator explores",
	"bounds: 1-7 servers, 1-3 clients, up to 80 calls or 25 streams a run",
}
