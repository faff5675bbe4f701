package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/redis/go-redis/v9"
	"github.com/redis/go-redis/v9/logging"
	"github.com/redis/go-redis/v9/maintnotifications"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/livekit/psrpc"
	"github.com/livekit/psrpc/internal/bus"
	"github.com/livekit/psrpc/internal/verifsim/simpb"
)

// The Redis fabric: the real Redis bus and the real go-redis client over
// simulated connections to a simulated Redis server.

type redisFabric struct {
	w         *psWorld
	t         *tcpNet
	lastClaim time.Duration // when a process last asked for a queue message
	keys      map[string]redisKey
	proto     int
	hello     bool
	noRetry   bool // the clients give up at once when a connection breaks
	quiet     bool
	stops     bool // chaos has ended
	execs     map[*psMsg][]*redisExec
	wipes     []time.Duration // when the server lost its keys
	seen      map[string]bool // what was published, by channel and payload
	calls     *world          // the calls that run over it
}

type redisKey struct {
	v     string
	until time.Duration
}

// redisExec is one execution of a PUBLISH by the server.
type redisExec struct {
	at stamp
	to []*tcpConn
}

type redisSess struct {
	c     *tcpConn
	resp3 bool
	subs  map[string]bool
}

func newRedisNet(e *env) *redisFabric {
	t := newTCPNet()
	switch e.n(4) {
	case 1:
		t.latMax = ms
	case 2:
		t.latMin, t.latMax = ms, 3*ms
	case 3:
		t.latMax = 20 * ms
	}
	f := &redisFabric{t: t, keys: map[string]redisKey{}, execs: map[*psMsg][]*redisExec{}, seen: map[string]bool{}}
	f.proto = cpick(e.cfgRng, 2, 3)
	f.hello = e.p(2, 3)
	f.noRetry = (&cfgRng{runtime.VerifSeed() ^ 0x52545259}).n(2) == 0
	t.accept = f.accept
	if !tracing {
		logging.Disable()
	}
	return f
}

func newRedisFabric(e *env, w *psWorld) *redisFabric {
	f := newRedisNet(e)
	f.w = w
	f.quiet = e.p(2, 5)
	if !f.quiet && e.p(1, 3) {
		f.t.spikeDen, f.t.spikeMax = cpick(e.cfgRng, 5, 20), cpick(e.cfgRng, 50*ms, 500*ms)
	}
	return f
}

// newBus connects a node; its goroutines are those of node as.
func (f *redisFabric) newBus(node, as uint32) psrpc.MessageBus {
	var b psrpc.MessageBus
	asNode(as, func() {
		retries := 0 // as many as the client likes
		if f.noRetry {
			retries = -1
		}
		rc := redis.NewClient(&redis.Options{
			MaxRetries: retries,
			Addr:       "sim:1", Protocol: f.proto, DisableIdentity: true, PoolSize: 20,
			MaintNotificationsConfig: &maintnotifications.Config{Mode: maintnotifications.ModeDisabled},
			Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
				return f.t.dial(ctx, node)
			},
		})
		b = psrpc.NewRedisMessageBus(rc)
	})
	return b
}

func (f *redisFabric) accept(c *tcpConn) {
	s := &redisSess{c: c, subs: map[string]bool{}}
	c.user = s
	c.toSrv.onData = func() { f.serve(s) }
}

// serve executes every complete command that has arrived.
func (f *redisFabric) serve(s *redisSess) {
	h := s.c.toSrv
	if f.t.stall {
		return
	}
	for {
		args, rest, ok := parseRESP(h.buf)
		if !ok {
			break
		}
		h.buf = rest
		f.exec(s, args)
	}
	if h.err != nil {
		if !s.c.dead {
			s.c.toCli.put(nil, true)
		}
		s.subs = map[string]bool{}
	}
}

func parseRESP(b []byte) (args []string, rest []byte, ok bool) {
	line := func() (string, bool) {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 {
			return "", false
		}
		l := string(b[:i])
		b = b[i+2:]
		return l, true
	}
	l, k := line()
	if !k || len(l) == 0 || l[0] != '*' {
		return nil, nil, false
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, nil, false
	}
	for i := 0; i < n; i++ {
		l, k := line()
		if !k || len(l) == 0 || l[0] != '$' {
			return nil, nil, false
		}
		m, err := strconv.Atoi(l[1:])
		if err != nil || len(b) < m+2 {
			return nil, nil, false
		}
		args = append(args, string(b[:m]))
		b = b[m+2:]
	}
	return args, b, true
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (f *redisFabric) exec(s *redisSess, args []string) {
	if len(args) == 0 {
		return
	}
	reply := func(r string) {
		if !s.c.dead && !s.c.closed {
			s.c.toCli.put([]byte(r), false)
		}
	}
	push := "*"
	if s.resp3 {
		push = ">"
	}
	switch strings.ToUpper(args[0]) {
	case "HELLO":
		if !f.hello {
			reply("-ERR unknown command 'HELLO'\r\n")
			return
		}
		s.resp3 = len(args) > 1 && args[1] == "3"
		kv := []string{"server", "redis", "version", "7.4.0", "mode", "standalone", "role", "master"}
		var b strings.Builder
		if s.resp3 {
			fmt.Fprintf(&b, "%%%d\r\n", len(kv)/2+2)
		} else {
			fmt.Fprintf(&b, "*%d\r\n", len(kv)+4)
		}
		for _, x := range kv {
			b.WriteString(bulk(x))
		}
		p := 2
		if s.resp3 {
			p = 3
		}
		fmt.Fprintf(&b, "%s:%d\r\n%s:%d\r\n", bulk("proto"), p, bulk("id"), s.c.id)
		reply(b.String())
	case "PING":
		if len(s.subs) > 0 && !s.resp3 {
			reply("*2\r\n" + bulk("pong") + bulk(""))
			return
		}
		reply("+PONG\r\n")
	case "SUBSCRIBE":
		for _, ch := range args[1:] {
			s.subs[ch] = true
			logf("redis: conn#%d subscribes %q", s.c.id, ch)
			reply(fmt.Sprintf("%s3\r\n%s%s:%d\r\n", push, bulk("subscribe"), bulk(ch), len(s.subs)))
		}
	case "UNSUBSCRIBE":
		chs := args[1:]
		if len(chs) == 0 {
			chs = sortedKeys(s.subs)
		}
		for _, ch := range chs {
			delete(s.subs, ch)
			logf("redis: conn#%d unsubscribes %q", s.c.id, ch)
			reply(fmt.Sprintf("%s3\r\n%s%s:%d\r\n", push, bulk("unsubscribe"), bulk(ch), len(s.subs)))
		}
	case "PUBLISH":
		if len(args) != 3 {
			reply("-ERR wrong number of arguments\r\n")
			return
		}
		x := &redisExec{at: mark()}
		for _, c := range f.t.conns {
			o, _ := c.user.(*redisSess)
			if o == nil || c.dead || !o.subs[args[1]] {
				continue
			}
			x.to = append(x.to, c)
			p := "*"
			if o.resp3 {
				p = ">"
			}
			if !c.closed {
				c.toCli.put([]byte(p+"3\r\n"+bulk("message")+bulk(args[1])+bulk(args[2])), false)
			}
		}
		if f.calls != nil {
			k := args[1] + "\x1f" + args[2]
			if f.seen[k] && !f.noRetry {
				count("event:published_again")
				f.calls.republished([]byte(args[2]))
			}
			f.seen[k] = true
		}
		if m := f.msgOf([]byte(args[2])); m != nil {
			logf("redis: publish %d to %d connections", m.id, len(x.to))
			f.execs[m] = append(f.execs[m], x)
			if m.twin != nil {
				f.execs[m.twin] = append(f.execs[m.twin], x)
			}
		}
		reply(fmt.Sprintf(":%d\r\n", len(x.to)))
	case "SET":
		f.lastClaim = now()
		if len(args) < 3 {
			reply("-ERR wrong number of arguments\r\n")
			return
		}
		nx, ttl := false, time.Duration(0)
		for i := 3; i < len(args); i++ {
			switch strings.ToUpper(args[i]) {
			case "NX":
				nx = true
			case "EX", "PX":
				if i+1 < len(args) {
					n, _ := strconv.Atoi(args[i+1])
					ttl = time.Duration(n) * ms
					if strings.ToUpper(args[i]) == "EX" {
						ttl = time.Duration(n) * time.Second
					}
					i++
				}
			}
		}
		k, ok := f.keys[args[1]]
		if ok && k.until <= now() {
			ok = false
		}
		if nx && ok {
			if s.resp3 {
				reply("_\r\n")
			} else {
				reply("$-1\r\n")
			}
			return
		}
		k = redisKey{args[2], 1 << 62}
		if ttl > 0 {
			k.until = now() + ttl
		}
		f.keys[args[1]] = k
		reply("+OK\r\n")
	case "SETNX":
		k, ok := f.keys[args[1]]
		if ok && k.until > now() {
			reply(":0\r\n")
			return
		}
		f.keys[args[1]] = redisKey{args[2], 1 << 62}
		reply(":1\r\n")
	case "EXPIRE":
		n, _ := strconv.Atoi(args[2])
		if k, ok := f.keys[args[1]]; ok {
			k.until = now() + time.Duration(n)*time.Second
			f.keys[args[1]] = k
			reply(":1\r\n")
			return
		}
		reply(":0\r\n")
	case "CLIENT":
		reply("+OK\r\n")
	case "QUIT":
		reply("+OK\r\n")
	default:
		count("redis_unknown_command")
		reply("-ERR unknown command\r\n")
	}
}

func (f *redisFabric) msgOf(payload []byte) *psMsg {
	if f.w == nil {
		return nil
	}
	var a anypb.Any
	if (proto.UnmarshalOptions{DiscardUnknown: true}).Unmarshal(payload, &a) != nil {
		return nil
	}
	u := &simpb.Upd{}
	if a.UnmarshalTo(u) != nil {
		return nil
	}
	return f.w.all[u.Id]
}

// ---- faults ------------------------------------------------------------------

func (f *redisFabric) chaos(e *env) {
	if f.quiet {
		return
	}
	f.t.chaos(f.w.nodes, 1+F(6), func() bool { return f.w.stop }, func() {
		if F(2) == 0 {
			f.keys = map[string]redisKey{}
			f.wipes = append(f.wipes, now())
		}
	}, f.resume)
}

func (f *redisFabric) resume() {
	for _, c := range f.t.conns {
		if s, ok := c.user.(*redisSess); ok && !c.dead {
			f.serve(s)
		}
	}
}

// chaos injects n faults one after another, each with its own end.
func (t *tcpNet) chaos(nodes []uint32, n int, stop func() bool, restarted, resume func()) {
	for ; n > 0 && !stop(); n-- {
		sleep(time.Duration(F(200)) * ms / time.Duration(1+F(10)))
		node := nodes[F(len(nodes))]
		d := time.Duration(1+F(400)) * ms
		if F(4) == 0 {
			d = time.Duration(1+F(8000)) * ms
		}
		switch F(5) {
		case 0: // one connection breaks
			l := t.of(node)
			if len(l) == 0 {
				continue
			}
			count("fault:connection_broken")
			end := t.fault(node)
			l[F(len(l))].kill()
			end()
		case 1: // all connections of a node break
			count("fault:all_connections_broken")
			end := t.fault(node)
			for _, c := range t.of(node) {
				c.kill()
			}
			end()
		case 2: // a node is cut off
			count("fault:link_cut")
			end := t.fault(node)
			t.cut[node] = true
			breaks := F(3) == 0
			time.AfterFunc(d, func() {
				if breaks {
					for _, c := range t.of(node) {
						c.kill()
					}
				}
				t.heal(node)
				end()
			})
		case 3: // the server restarts
			count("fault:server_restart")
			var ends []func()
			for _, n := range nodes {
				ends = append(ends, t.fault(n))
			}
			t.down = true
			for _, c := range append([]*tcpConn(nil), t.conns...) {
				c.kill()
			}
			restarted()
			time.AfterFunc(d, func() {
				t.down = false
				for _, e := range ends {
					e()
				}
			})
			if F(3) > 0 {
				sleep(d)
			}
		case 4: // the server stalls
			count("fault:server_stall")
			var ends []func()
			for _, n := range nodes {
				ends = append(ends, t.fault(n))
			}
			t.stall = true
			time.AfterFunc(d, func() {
				t.stall = false
				resume()
				for _, e := range ends {
					e()
				}
			})
			sleep(d)
		}
	}
}

// calm waits until every fault has ended.
func (t *tcpNet) calm() {
	for i := 0; i < 400; i++ {
		busy := t.down || t.stall || len(t.cut) > 0
		for _, l := range t.faults {
			for _, s := range l {
				busy = busy || s.to < 0
			}
		}
		if !busy {
			return
		}
		sleep(50 * ms)
	}
	panic("fault does not end")
}

// ---- oracles -------------------------------------------------------------------

// settleAfter is how long the consequences of a fault may last: a command is
// retried, each time with its own time limit and backoff, and the bus retries
// what failed after a second.
const redisSettle = 25 * time.Second

// subscribed is what the server has subscribed for a node.
func (f *redisFabric) subscribed(node uint32) map[string]int {
	r := map[string]int{}
	for _, c := range f.t.conns {
		if s, ok := c.user.(*redisSess); ok && c.node == node && !c.dead {
			for ch := range s.subs {
				r[ch]++
			}
		}
	}
	return r
}

// healed: the faults are over; the server soon has subscribed what is open, no more and no less.
func (f *redisFabric) healed() {
	f.t.calm()
	f.t.spikeDen = 0
	f.converge("after the last fault", redisSettle)
	if !f.quiet {
		sleep(redisSettle)
	}
}

func (f *redisFabric) converge(when string, limit time.Duration) {
	t0 := now()
	why := ""
	for now()-t0 < limit {
		checked("P20")
		if why = f.diff(); why == "" {
			return
		}
		sleep(100 * ms)
	}
	bad("P20", "not-converged", "%s (%v ago): %s", when, limit, why)
}

// diff is what the server has subscribed compared to the open subscriptions,
// by count of channels: which key a channel has is the bus's business, but
// each channel with an open subscription needs one, and no other may stay.
func (f *redisFabric) diff() string {
	for _, n := range f.w.nodes {
		want := map[string]bool{}
		if b, ok := f.w.buses[n].(*countBus); ok {
			for k, n := range b.open {
				if n > 0 {
					want[k] = true
				}
			}
		}
		got := f.subscribed(n)
		if len(got) != len(want) {
			return fmt.Sprintf("node%d has open subscriptions of %d channels %q, the server has it subscribed to %d: %q", n, len(want), sortedKeys(want), len(got), sortedKeys(got))
		}
		for ch, k := range got {
			if k > 1 {
				return fmt.Sprintf("the server has node%d subscribed to %q on %d connections", n, ch, k)
			}
		}
	}
	return ""
}

// mayLose: this subscription need not have received this message.
func (f *redisFabric) mayLose(m *psMsg, s *psSub) bool {
	l := f.execs[m]
	if len(l) < m.copies && f.t.disturbed(m.pub.node, m.start.t, m.start.t+10*time.Second, redisSettle) {
		return true
	}
	if len(l) == 0 {
		return false // never got to the server
	}
	for _, x := range l {
		if x.at.t-s.ready.t < f.subscribeTime() || f.t.disturbed(s.node, s.ready.t, x.at.t+10*time.Second, redisSettle) {
			return true
		}
		if m.ch.queue {
			// whoever claims a message may not learn that it has
			for _, c := range x.to {
				if f.t.disturbed(c.node, x.at.t, x.at.t+10*time.Second, redisSettle) {
					return true
				}
			}
		}
	}
	return false
}

// subscribeTime is how long after it was opened a subscription may miss messages.
func (f *redisFabric) subscribeTime() time.Duration {
	d := 4*f.t.latMax + 500*ms
	d += 6 * f.t.spikeMax
	for _, p := range f.w.paused {
		d += p
	}
	return d
}

// mayRepeat: the client publishes again when it has not learnt whether it
// had; a queue only claims a message for some seconds.
func (f *redisFabric) mayRepeat(m *psMsg) bool {
	l := f.execs[m]
	if len(l) == 0 {
		return false
	}
	if m.ch.queue {
		for _, x := range f.wipes {
			if x >= l[0].at.t {
				return true
			}
		}
		return now() >= l[0].at.t+5*time.Second
	}
	return len(l) > m.copies && !f.noRetry
}

// checkOrder: the server executes one publisher's messages in order, and
// subscribers receive in the order of execution.
func (f *redisFabric) checkOrder() {
	for _, m := range f.w.all {
		if len(f.execs[m]) > m.copies && f.noRetry {
			bad("P20 P08", "published-twice", "message %d was published %d times, %d were asked for, and the client does not publish again", m.id, len(f.execs[m]), m.copies)
		} else if len(f.execs[m]) > m.copies && !f.t.disturbed(m.pub.node, m.start.t, f.execs[m][m.copies].at.t, redisSettle) && f.t.spikeMax == 0 {
			bad("P20", "published-twice", "message %d was published %d times, %d were asked for, and nothing was wrong", m.id, len(f.execs[m]), m.copies)
		}
	}
	for _, c := range f.w.chans {
		for _, s := range c.subs {
			last := map[*psPub]*psMsg{}
			for _, m := range s.got {
				if len(f.execs[m]) != m.copies {
					continue
				}
				if l := last[m.pub]; l != nil && l.idx > m.idx {
					checked("P20")
					x, y := f.execs[m][len(f.execs[m])-1], f.execs[l][0]
					if x.at.seq < y.at.seq {
						bad("P20", "reordered", "%s received %d after %d, which the server got later", s, m.id, l.id)
					} else if !f.t.disturbed(m.pub.node, m.start.t, x.at.t, redisSettle) {
						bad("P20", "reordered", "%s received %d after %d, which the same publisher published later", s, m.id, l.id)
					}
				}
				last[m.pub] = m
			}
		}
	}
}

// countBus counts the subscriptions open on a bus.
type countBus struct {
	psrpc.MessageBus
	open map[string]int
}

func (b *countBus) Subscribe(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	r, err := b.MessageBus.Subscribe(ctx, ch, size)
	return b.wrap(r, err, ch)
}

func (b *countBus) SubscribeQueue(ctx context.Context, ch bus.Channel, size int) (bus.Reader, error) {
	r, err := b.MessageBus.SubscribeQueue(ctx, ch, size)
	return b.wrap(r, err, ch)
}

func (b *countBus) wrap(r bus.Reader, err error, ch bus.Channel) (bus.Reader, error) {
	if err != nil {
		return nil, err
	}
	b.open[ch.Legacy]++
	closed := false
	return &bus.VerifReader{
		ReadFunc: func() ([]byte, bool) { return bus.VerifRead(r) },
		CloseFunc: func() error {
			if !closed {
				closed = true
				b.open[ch.Legacy]--
			}
			return r.Close()
		},
	}, nil
}
