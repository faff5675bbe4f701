// The simulation harness: runs one seeded execution of the real psrpc code
// and reports what it saw. It is compiled into the module through a build
// overlay (package main at internal/verifsim) and is not instrumented, so its
// own code is atomic between yield points.
package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

const ms = time.Millisecond

// ---- choices -------------------------------------------------------------

// W is a workload choice in [0,n); 0 is the plainest.
func W(n int) int {
	if n <= 1 {
		return 0
	}
	return int(runtime.VerifChoose(5, uint32(n)))
}

// WP is true with probability num/den (workload).
func WP(num, den int) bool { return runtime.VerifChance(5, uint32(num), uint32(den)) }

// F and FP are fault choices.
func F(n int) int {
	if n <= 1 {
		return 0
	}
	return int(runtime.VerifChoose(4, uint32(n)))
}
func FP(num, den int) bool { return runtime.VerifChance(4, uint32(num), uint32(den)) }

func pick[T any](xs ...T) T { return xs[W(len(xs))] }

// cfgRng drives per-run configuration: a pure function of the seed.
type cfgRng struct{ s uint64 }

func (r *cfgRng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *cfgRng) n(n int) int           { return int(r.next() >> 33 % uint64(n)) }
func (r *cfgRng) p(num, den int) bool   { return r.n(den) < num }
func (r *cfgRng) between(a, b int) int  { return a + r.n(b-a+1) }
func cpick[T any](r *cfgRng, xs ...T) T { return xs[r.n(len(xs))] }

// ---- time ----------------------------------------------------------------

var t0 = int64(1257894000000000000)

// now is simulated time since the start of the process.
func now() time.Duration { return time.Duration(runtime.VerifNow() - t0) }

func busy() time.Duration { return time.Duration(runtime.VerifBusy()) }

// stamp is a moment of the run.
type stamp struct {
	t     time.Duration
	busy  time.Duration
	jumps uint64
	seq   uint64
}

var seqNo uint64

func mark() stamp {
	seqNo++
	return stamp{now(), busy(), runtime.VerifJumps(), seqNo}
}

func (s stamp) ok() bool { return s.seq != 0 }

// before reports whether everything that became runnable at a has run before b.
func (a stamp) settledBefore(b stamp) bool { return a.ok() && a.jumps < b.jumps && a.seq < b.seq }

// idleSince is the time that passed from a to b while nothing could run.
func idleSince(a, b stamp) time.Duration { return (b.t - a.t) - (b.busy - a.busy) }

// ---- log, violations -------------------------------------------------------

var (
	tracing  bool
	traceOut []string
	logHash  uint64 = 14695981039346656037
	nEvents  uint64
)

func logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	nEvents++
	for i := 0; i < len(s); i++ {
		logHash = (logHash ^ uint64(s[i])) * 1099511628211
	}
	logHash = (logHash ^ uint64(now())) * 1099511628211
	if tracing {
		fmt.Fprintf(os.Stderr, "%12.6f %s\n", float64(now())/1e9, s)
	} else {
		if len(traceOut) > 400 {
			traceOut = traceOut[200:]
		}
		traceOut = append(traceOut, fmt.Sprintf("%.6f %s", float64(now())/1e9, s))
	}
}

type violation struct {
	Prop  string
	Class string
	Key   string
	Msg   string
}

var violations []violation

// bad records a violation of a property. class is stable over runs; msg is not.
func bad(prop, class, f string, a ...any) {
	badk(prop, class, "", f, a...)
}

func badk(prop, class, key, f string, a ...any) {
	if noisy && !strings.Contains(prop, "P18") {
		prop += " P18"
	}
	v := violation{prop, class, key, fmt.Sprintf(f, a...)}
	logf("VIOLATION %s %s %s: %s", v.Prop, v.Class, v.Key, v.Msg)
	if len(violations) < 50 {
		violations = append(violations, v)
	}
}

var counts = map[string]uint64{}

func count(k string)         { counts[k]++ }
func countN(k string, n int) { counts[k] += uint64(n) }

// checked counts evaluations of an oracle of a property.
var checkedN = map[string]uint64{}

func checked(prop string) { checkedN[prop]++ }

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func topicString(t []string) string { return strings.Join(t, "\x1f") }

// asNode runs f as node n.
func asNode(n uint32, f func()) {
	o := runtime.VerifSetNode(n)
	defer runtime.VerifSetNode(o)
	f()
}

// goNode starts f as a goroutine of node n.
func goNode(n uint32, f func()) {
	o := runtime.VerifSetNode(n)
	go f()
	runtime.VerifSetNode(o)
}

// group waits for harness goroutines without blocking forever.
type group struct {
	n    int
	done chan struct{}
}

func newGroup() *group { return &group{done: make(chan struct{}, 1)} }

func (g *group) Go(node uint32, f func()) {
	g.n++
	goNode(node, func() {
		defer func() {
			g.n--
			if g.n == 0 {
				select {
				case g.done <- struct{}{}:
				default:
				}
			}
		}()
		f()
	})
}

// Wait is false if d passed before all were done.
func (g *group) Wait(d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	for g.n > 0 {
		select {
		case <-g.done:
		case <-t.C:
			return g.n == 0
		}
	}
	return true
}

func sleep(d time.Duration) { time.Sleep(d) }
