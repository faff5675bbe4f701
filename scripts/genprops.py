#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))

p("P01", "A single-server request runs at most once, on the server that was selected",
  "A unary request to a queue, affinity, topic or single-server-topic method runs the service implementation at most once over all servers, whatever messages are lost or delayed and whoever crashes or closes. Where the client selects a server, only the selected server runs it. A successful result implies that it ran exactly once, and that the result came from the server that ran it.",
  ["schedules","fault_sequences","crash_points","configurations"],
  "all interleavings of clients, servers and claims; all loss, delay, partition, crash and close sequences; 1-4 servers, all single-server method kinds, all selection options",
  "The tests run one or two servers on a perfect local bus and never observe how often the implementation ran when claims race, get lost, or when a server dies between claim and selection.",
  ["pkg/client/rpc.go","pkg/server/rpc.go","protoc-gen-psrpc/generator.go"],
  [("claim/selection handshake","pkg/client/rpc.go selectServer; pkg/server/rpc.go claimRequest"),("queue subscriptions","internal/bus"),("claim flags chosen by the generator","protoc-gen-psrpc/generator.go getRequireClaim")],
  ["entry of the generated service implementation","result of the generated client method"],
  [("pending claims","requests a server offered to handle","pkg/server/rpc.go claims"),("response routing table","which call a response belongs to","pkg/client/client.go responseChannels")])

p("P02", "Every call gets the answer to its own request, intact",
  "The outcome of a call (unary or multi) is the answer produced for that very request: payload, or error code, message and details exactly as the implementation returned them. No call ever receives another call's answer, and a unary call produces exactly one outcome.",
  ["schedules","inputs","fault_sequences","histories"],
  "all interleavings of concurrent calls of several clients on several servers, all payloads, psrpc, gRPC-status and plain errors with and without details, all delay and loss sequences",
  "The tests issue one call at a time per client and compare one fixed payload; correlation under concurrency, late answers and reused channels is never sampled.",
  ["pkg/client/rpc.go","pkg/client/multi.go","pkg/client/client.go","pkg/server/rpc.go","errors.go","internal/bus/serialization.go"],
  [("request-id correlation","pkg/client/client.go"),("error encoding","pkg/server/rpc.go sendResponse; errors.go NewErrorFromResponse")],
  ["result of the generated client method","return value of the service implementation"])

p("P03", "Every call ends by its deadline with the right error, whatever fails",
  "Every unary call, multi call, stream open, stream send and stream close returns, or closes its channel, no later than the earlier of its timeout and its context's deadline, and promptly after its context is cancelled or (for a stream) the stream closes; a failed call reports request timed out, request cancelled, no response, unavailable, or the transport's or server's own error, according to what happened. This holds under any loss, partition, crash or stall, and no abandoned unary or stream call makes other calls of the same client miss theirs.",
  ["schedules","fault_sequences","crash_points","configurations"],
  "all fault sequences and interleavings; timeouts from option, client and context; all channel sizes; abandoned multi-call channels; many servers answering at once",
  "Two tests wait for one timeout each on a healthy bus. That nothing can block a client's dispatcher or outlive a deadline depends on interleavings and faults the tests never produce.",
  ["pkg/client/client.go","pkg/client/rpc.go","pkg/client/multi.go","pkg/client/stream.go","internal/stream/stream.go"],
  [("deadline context around each call","pkg/client/rpc.go"),("client dispatcher","pkg/client/client.go")],
  ["return of client methods, closing of response channels, on the simulated clock"])

p("P04", "Calls to healthy servers succeed, and service recovers when faults stop",
  "With no fault injected, a call whose method, topic and affinity options are matched by a live server that answers within the call's time limits succeeds, under every interleaving. After any sequence of message loss, partition, slow nodes, and crashed or replaced servers and clients ends, new calls succeed again, without restarting the surviving nodes.",
  ["schedules","fault_sequences","crash_points"],
  "all interleavings of concurrent calls with registration and closing of other nodes; all fault sequences followed by a fault-free period",
  "The tests make a handful of sequential calls on a fresh healthy system; loss of a wake-up, a wedged dispatcher or a leaked entry shows only after particular interleavings or faults.",
  ["pkg/client/client.go","pkg/client/rpc.go","pkg/server/rpc.go","internal/bus/bus_local.go"],
  [("dispatch loops","pkg/client/client.go; pkg/server/rpc.go run"),("claim handshake","pkg/client/rpc.go")],
  ["result of the generated client method"])

p("P05", "Handlers see the caller's deadline and metadata; expired requests never run",
  "The context given to a service implementation (unary, multi or stream) carries exactly the calling client's identity, send time and outgoing metadata, never another call's; for unary and multi calls its deadline is the caller's own, never later than the caller's timeout or context deadline. A request or stream open that reaches a server after its expiry by that server's clock is never executed.",
  ["schedules","fault_sequences","configurations"],
  "all interleavings of concurrent calls carrying different metadata, timeouts and context deadlines; all message delays and clock skews",
  "One test looks at one metadata map and one at one clamped deadline; isolation between concurrent calls and expiry under delay and skew are not tested.",
  ["pkg/client/rpc.go","pkg/client/multi.go","pkg/client/stream.go","pkg/server/rpc.go","pkg/server/stream.go","pkg/metadata/metadata.go","pkg/middleware/otelpsrpc/otel.go"],
  [("expiry and metadata in the request envelope","pkg/client/rpc.go"),("header context","pkg/metadata/metadata.go")],
  ["context seen by the service implementation and by server interceptors"])

p("P06", "Affinity selection picks the best eligible server, in time",
  "For a call with server selection, the server chosen is one that reported a positive affinity which meets the minimum; unless first-available or maximum affinity ended the wait, it is the highest among the offers that had reached the client, and the wait lasts until the short-circuit delay after the first eligible offer or the affinity timeout, no longer. A server whose affinity function returns zero or less is never chosen (and one that returns a negative value does not offer itself), and a custom selection function is given exactly the eligible offers received.",
  ["schedules","inputs","configurations","fault_sequences"],
  "all arrival orders and times of offers relative to the selection timers, all selection options, all affinity values",
  "The one affinity test has a single arrival order; the decision depends on the race of offers with three timers.",
  ["pkg/client/rpc.go","pkg/client/options.go","pkg/server/rpc.go","request.go"],
  [("selection loop","pkg/client/rpc.go selectServer"),("option defaults","pkg/client/options.go")],
  ["claims and selections on the message bus","server that runs the implementation"])

p("P07", "A multi-RPC reaches every server once and collects each answer once",
  "A multi call is executed at most once by each server registered for its method and topic, and exactly once by each one that stays registered when no message is lost. The response channel yields exactly one entry per answer that reached the client before the call's end, nothing else, and is closed at the end.",
  ["schedules","fault_sequences","configurations"],
  "all interleavings of the answers of 1-5 servers with the deadline and cancellation, all loss and delay sequences, topics, registration churn, slow and fast readers",
  "The tests use at most two servers answering at once to an attentive reader.",
  ["pkg/client/multi.go","pkg/client/client.go","pkg/server/rpc.go"],
  [("multi response loop","pkg/client/multi.go handleResponses")],
  ["response channel of the generated multi method","entry of the service implementation"])

p("P08", "A published update reaches every open subscription once, in order",
  "Every message published to a multi subscription is received exactly once by every subscription of that method and topic that was open when it was published and stays open, unaltered, and in publication order per publisher. Subscriptions opening, closing or reading slowly never make another subscription lose, duplicate or reorder messages.",
  ["schedules","histories","configurations"],
  "all interleavings of 1-3 publishers with subscribers that open, read, stall and close; all channel sizes; topics",
  "The tests publish a couple of messages to two attentive subscribers.",
  ["internal/bus/subscription.go","internal/bus/bus_local.go","pkg/client/subscription.go","pkg/server/server.go"],
  [("subscription lists and dispatch","internal/bus/bus_local.go"),("typed reader","internal/bus/subscription.go")],
  ["channels of generated Subscribe methods"])

p("P09", "A queue update is processed by exactly one subscriber",
  "Every message published to a queue subscription is received by exactly one of the open subscriptions of that method and topic, never by two; it is lost only with a subscription that closes before it has read it. Subscriptions opening, closing or stalling never make messages of the others be lost or duplicated.",
  ["schedules","histories","configurations"],
  "all interleavings of publishers with queue subscribers that open, read, stall and close; topics; all channel sizes",
  "The tests publish one message to two idle subscribers.",
  ["internal/bus/bus_local.go","internal/bus/subscription.go","pkg/client/subscription.go","protoc-gen-psrpc/generator.go"],
  [("round-robin dispatch","internal/bus/bus_local.go dispatch")],
  ["channels of generated Subscribe methods"])

p("P10", "Topics, methods, services and clients never see each other's messages",
  "A request, response, offer, stream message or published update is delivered only to handlers and subscriptions of the same service, method and topic, and only to the client it is addressed to, for all distinct topics of non-empty valid UTF-8 parts, including ones with separators, non-ASCII characters or several parts. Registering or deregistering one topic never affects another.",
  ["inputs","schedules","histories","configurations"],
  "all sets of distinct topics over an alphabet rich in separators and non-ASCII characters, several services and clients active concurrently, registration churn",
  "The tests check channel names for a few inputs; isolation must hold for every pair of topics while everything is in use at once.",
  ["pkg/info/channels.go","pkg/server/server.go","pkg/client/subscription.go","protoc-gen-psrpc/generator.go"],
  [("channel naming","pkg/info/channels.go"),("handler keys","pkg/info/channels.go GetHandlerKey")],
  ["entry of service implementations","subscription channels"])

p("P11", "A stream send that succeeds was delivered, exactly once and in order",
  "A stream send that returns without error was placed on the peer's receive channel exactly once, unaltered; no message is ever delivered twice or on another stream, and messages of one sender arrive in the order in which sends succeeded one after the other. A message the receiver has no room for is never reported as sent.",
  ["schedules","fault_sequences","histories","configurations"],
  "all interleavings of several streams and concurrent senders in both directions, lost and delayed messages and acknowledgements, slow consumers, all channel sizes",
  "One test sends a few messages on one stream over a perfect bus.",
  ["internal/stream/stream.go","pkg/client/stream.go","pkg/server/stream.go"],
  [("per-message acknowledgement","internal/stream/stream.go HandleStream, Send")],
  ["return of Send, contents of the peer's Channel"])

p("P12", "A stream is served by one server and closes cleanly on both sides",
  "An opened stream is served by exactly one server. However it ends (either side closes, the handler returns, context cancelled, client or server closed) the receive channel of each side that learns of it closes once, pending and later sends fail, and both sides report the cause given by the side that closed; closing during concurrent sends and receives never panics or blocks beyond the send timeout.",
  ["schedules","fault_sequences","crash_points","histories"],
  "all interleavings of open, send, receive, close from both sides, cancellation, client close and server shutdown; loss of any message",
  "Existing tests close a stream in a fixed order from one side at rest.",
  ["internal/stream/stream.go","pkg/client/stream.go","pkg/server/stream.go"],
  [("close handshake","internal/stream/stream.go Close, HandleStream"),("draining","pkg/server/stream.go close")],
  ["Channel, Err, Send and Close of both stream ends"])

p("P13", "Graceful shutdown finishes what was accepted; nothing runs afterwards",
  "A graceful shutdown returns only after every request the server had started, and every one it had offered to run and was chosen for in time, has finished and its answer was published, and those callers still get their answers; it does return once the handlers do. A kill meanwhile cuts it short, a deregistration does so for its topic. Streams are ended, not awaited. After a shutdown or kill has returned, the server starts no unary or multi implementation and accepts no registration.",
  ["schedules","fault_sequences","histories"],
  "all interleavings of shutdown and kill with request arrival, claims, running handlers and registration; handlers of any duration",
  "No test closes a server while requests are in flight.",
  ["pkg/server/server.go","pkg/server/rpc.go","pkg/server/stream.go"],
  [("handling wait group, close order","pkg/server/rpc.go close"),("active wait group","pkg/server/server.go Close")],
  ["return of Shutdown and Kill, entry and exit of service implementations"])

p("P14", "Registration is exact: no duplicate, no half-registered group, no ghost",
  "A topic handler serves requests from the time its registration returns until its deregistration begins and never once that has returned; registering an already registered topic fails and leaves the first intact; a failed registration or construction (also of one member of a group) leaves nothing of itself subscribed. Calls, stream opens and subscriptions on a closed client and registrations on a closed server report that it is closed.",
  ["schedules","fault_sequences","histories"],
  "all sequences of register, deregister, group register, duplicates, close and calls, sequential and concurrent; subscription failures at any point",
  "The tests register each topic once on a bus that never fails.",
  ["pkg/server/server.go","pkg/server/registration.go","pkg/server/rpc.go","pkg/client/client.go","protoc-gen-psrpc/generator.go"],
  [("handler table","pkg/server/server.go"),("group rollback","pkg/server/registration.go"),("closed fuse","pkg/client/client.go")],
  ["results of Register/Deregister methods, open subscriptions of the bus"])

p("P15", "Nothing is left behind: subscriptions, goroutines and call state are released",
  "When all calls, streams and subscriptions of a client or server have ended, whatever their outcome, no state of them remains; when it has also been closed, it holds no bus subscription and no goroutine of it runs.",
  ["schedules","fault_sequences","histories"],
  "all outcomes of calls (success, error, timeout, cancellation, loss, close during call) in all interleavings",
  "No test counts what is left after calls and closes.",
  ["pkg/client/client.go","pkg/client/rpc.go","pkg/client/multi.go","pkg/client/stream.go","pkg/server/rpc.go","pkg/server/stream.go","internal/stream/stream.go","internal/bus/subscription.go"],
  [("deferred removal of routing entries","pkg/client/rpc.go"),("closing of subscriptions","pkg/client/client.go; pkg/server/rpc.go close")],
  ["open subscriptions of the bus","live goroutines","routing tables of clients and servers after quiescence"])

p("P16", "Interceptors and hooks run in order, exactly once per event",
  "For every call, request hooks run once before it, response hooks once per outcome after it with what the caller gets, and client, multi, stream and server interceptors nest in the order they were added, each exactly once per event, around the operation they wrap. This holds for every concurrent mixture of calls, without one call's interceptors seeing another call's data.",
  ["schedules","configurations","fault_sequences"],
  "all interleavings of concurrent calls, all numbers of interceptors (client options, request options, server), success, failure and timeout",
  "The tests chain interceptors around single direct calls.",
  ["internal/interceptors/interceptor.go","pkg/client/rpc.go","pkg/client/multi.go","pkg/client/options.go","pkg/server/rpc.go","internal/stream/stream.go"],
  [("interceptor chains","internal/interceptors/interceptor.go")],
  ["calls made to user-supplied hooks and interceptors"])

p("P17", "Retries follow the policy and never outlive the call",
  "With retry middleware a call (or stream send) is attempted again exactly after recoverable failures, with growing timeouts, never more often than allowed, never after success, an unrecoverable error or cancellation of the caller's context, and the caller gets the last attempt's result. Every attempt is a fresh request and concurrent calls do not share retry state.",
  ["schedules","fault_sequences","configurations"],
  "all loss patterns of requests and replies, all retry options, cancellation at any point, concurrent calls through one interceptor",
  "The tests call the retry helper with fixed error sequences and no concurrency.",
  ["pkg/middleware/retry.go"],
  [("retry loop","pkg/middleware/retry.go retry")],
  ["attempts seen by an inner interceptor and on the bus; result of the call"])

p("P18", "A panicking handler or a malformed message harms only itself",
  "With recovery middleware a panic in a service implementation becomes an internal error for that caller only, and the server keeps serving. Undecodable, foreign or unaddressed messages arriving on any channel are dropped or answered as malformed, and never crash, block or misroute anything else.",
  ["inputs","schedules","fault_sequences"],
  "all positions of corrupted, truncated, unknown-type and stray messages in the traffic of all channels; panics in any handler at any time",
  "No test injects anything undecodable or panics while other calls are in flight.",
  ["pkg/middleware/recovery.go","internal/bus/subscription.go","internal/bus/serialization.go","pkg/server/rpc.go","pkg/client/client.go"],
  [("recover","pkg/middleware/recovery.go"),("decoding","internal/bus/subscription.go")],
  ["outcome of concurrent calls while bad messages are injected on the bus"])

p("P19", "Metrics and traces account for every call exactly once",
  "The metrics observer is told of every unary call, multi call, stream open, send, receive and close exactly once per side, with the outcome, counts and byte sizes that really occurred; opens and closes balance. Trace context injected by a client reaches the server that runs that very call.",
  ["schedules","fault_sequences"],
  "all interleavings of concurrent unary, multi and stream calls with success, failure, timeout, cancellation and close",
  "The metrics and tracing middleware have no tests.",
  ["pkg/middleware/metrics.go","pkg/middleware/otelpsrpc/otel.go"],
  [("metrics interceptors","pkg/middleware/metrics.go"),("propagation through metadata","pkg/middleware/otelpsrpc/otel.go")],
  ["calls on the observer and tracer"])

p("P20", "The Redis bus delivers by the bus contract and reconverges after failures",
  "On the Redis bus, while the connection is up, every message reaches every open subscription of its channel once and in publication order per publisher and channel, and exactly one subscription of a queue over all processes (none lagging behind by the seconds for which a message stays claimed). Whatever the order of subscribing, unsubscribing and connection failures, the set of channels subscribed at the server soon equals the set of channels with open subscriptions, and delivery resumes.",
  ["schedules","fault_sequences","histories","crash_points"],
  "all interleavings of subscribe, close, publish with the reader, reconciler and publisher workers of 1-3 processes; connection loss, failed commands and delays at any point",
  "The Redis tests need a server and cover one reconnection; the reconciler's races with churn and errors are not sampled.",
  ["internal/bus/bus_redis.go"],
  [("reconciler","internal/bus/bus_redis.go redisReconcileSubscriptionsOp"),("publish queues","internal/bus/bus_redis.go redisPublishQueue"),("queue lock","internal/bus/bus_redis.go read")],
  ["subscriptions and publications at a simulated Redis server","messages read from the bus"])

p("P21", "The NATS bus delivers by the bus contract",
  "On the NATS bus every message reaches every open subscription of its channel and no other, once and in publication order per publisher, and exactly one member of a queue, through any opening and closing of subscriptions that share a subject. Closing a subscription never disturbs another one and leaves no server-side subscription without a user.",
  ["schedules","histories","fault_sequences"],
  "all interleavings of subscribe, close and publish over routed and direct channels of 1-3 processes with the delivery goroutines of the NATS client; connection loss",
  "The NATS tests need a server and exercise single subscribe/close sequences.",
  ["internal/bus/bus_nats.go"],
  [("router","internal/bus/bus_nats.go natsRouter")],
  ["subscriptions and publications at a simulated NATS server","messages read from the bus"])

p("P22", "The local bus delivers by the bus contract and never deadlocks",
  "On the local bus every message reaches every open subscription of its channel once, in publication order per publisher, and exactly one member of a queue. Subscriptions opening, stalling and closing concurrently with publications never deadlock the bus, crash it, or stop messages to other channels, and a publication ends when its context does.",
  ["schedules","histories","configurations"],
  "all interleavings of publishers and subscriptions that open, read, stall and close on several channels, all channel sizes",
  "The tests use one goroutine at a time.",
  ["internal/bus/bus_local.go"],
  [("bus and list locks","internal/bus/bus_local.go")],
  ["messages read from the bus; progress of publishers and closers"])

p("P23", "Closing is safe at any moment, any number of times, from anywhere",
  "Closing clients, servers, streams and subscriptions, shutting down and killing servers, cancelling contexts and deregistering topics, concurrently with each other, repeatedly, and with any calls in flight, never panics, never deadlocks, and always returns.",
  ["schedules","histories","crash_points"],
  "all interleavings of all closing operations with each other and with traffic",
  "Tests close each object once, at rest.",
  ["pkg/client/client.go","pkg/server/server.go","pkg/server/rpc.go","pkg/server/stream.go","internal/stream/stream.go","internal/bus/bus_local.go"],
  [("fuses, once, wait groups","pkg/server/server.go Close; pkg/server/rpc.go close; internal/stream/stream.go Close")],
  ["return of closing operations; absence of panics"])

p("P24", "The latency and loss test buses only delay or drop, as configured",
  "A subscription through the latency test bus yields every message of the underlying bus exactly once, unaltered, not before its configured latency has passed and not long after, for every interleaving of arrivals, due times and closing. A subscription through the loss test bus yields an in-order subsequence: everything at rate zero, nothing at rate one, and only filtered channels are affected.",
  ["schedules","configurations","inputs"],
  "all interleavings of arrivals with the due times of earlier messages, all latencies including zero and varying ones, all rates",
  "The test buses themselves have no tests.",
  ["testutils/laggybus.go","testutils/unreliablebus.go","internal/bus/bus_interceptor.go"],
  [("due-time heap and timer","testutils/laggybus.go")],
  ["messages read from subscriptions of the wrapped bus"])

p("P30", "Error codes map consistently to HTTP, gRPC and Twirp",
  "Every psrpc error code maps to one documented HTTP status, gRPC code and Twirp code, and gRPC codes map back to the psrpc code of the same meaning.",
  ["inputs"], "all error codes",
  "Tests check a few codes.",
  ["errors.go"], [("mapping switches","errors.go")], ["ToHttp, GRPCStatus, As"])

p("P31", "The generator emits compilable, deterministic code for every valid proto file",
  "For every valid service definition and parameter set the generator emits the same, compilable code each time, and rejects invalid option combinations.",
  ["programs","inputs"], "all proto files and parameters",
  "Tests compile a dozen sample files.",
  ["protoc-gen-psrpc/generator.go","protoc-gen-psrpc/go_naming.go","protoc-gen-psrpc/command_line.go"], [("code emitter","protoc-gen-psrpc/generator.go")], ["generated files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
