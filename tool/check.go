package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// specFor is the i-th run of a check: a pure function of property and seed.
func (p *propCheck) specFor(seed uint64, i int) runSpec {
	tot := 0
	for _, s := range p.mix {
		tot += s.weight
	}
	h := uint64(0)
	for _, c := range p.id {
		h = h*131 + uint64(c)
	}
	k := i % tot
	for _, s := range p.mix {
		if k < s.weight {
			return runSpec{Seed: mix64(mix64(seed^h<<32) + uint64(i)), Scenario: s.sc, Focus: s.focus}
		}
		k -= s.weight
	}
	panic("mix")
}

// ---- known findings --------------------------------------------------------

type finding struct{ prop, class, key, text string }

// knownFindings reads the committed list. Lines:
//
//	finding: property=<id> class=<class> key="<key>" <what fails>
//	fixed: property=<id> <commit> <what failed>        (documentation only)
func knownFindings() (r []finding) {
	f, err := os.Open(filepath.Join(verifDir, "KNOWN-FINDINGS.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k finding
		rest := strings.TrimPrefix(l, "finding: ")
		for {
			i := strings.IndexByte(rest, ' ')
			if i < 0 {
				i = len(rest)
			}
			w := rest[:i]
			switch {
			case strings.HasPrefix(w, "property="):
				k.prop = w[9:]
			case strings.HasPrefix(w, "class="):
				k.class = w[6:]
			case strings.HasPrefix(w, "key="):
				q, err := strconv.QuotedPrefix(rest[4:])
				must(err)
				k.key, err = strconv.Unquote(q)
				must(err)
				i = 4 + len(q)
			default:
				w = ""
			}
			if w == "" {
				break
			}
			rest = strings.TrimLeft(rest[i:], " ")
		}
		k.text = rest
		if k.prop == "" || k.class == "" {
			fatalf("bad line in KNOWN-FINDINGS.txt: %s", l)
		}
		r = append(r, k)
	}
	return
}

func isKnown(ks []finding, prop string, v violation) bool {
	for _, k := range ks {
		if k.prop == prop && k.class == v.Class && k.key == v.Key {
			return true
		}
	}
	return false
}

// ---- replay files ------------------------------------------------------------

type replayFile struct {
	Property  string
	Class     string
	Key       string
	Message   string
	Scenario  byte
	Focus     byte
	Seed      uint64
	Choices   [nKinds][]choice
	Print     string // fingerprint of the replayed run
	Decisions map[string]int
	Original  int // non-zero decisions before minimisation
	Trace     []string
}

var kindNames = [nKinds]string{"scheduling picks", "yields", "stalls", "select order", "faults", "workload"}

func (r *replayFile) spec() runSpec {
	c := choices(r.Choices)
	return runSpec{Seed: r.Seed, Scenario: r.Scenario, Focus: r.Focus, Replay: &c}
}

func findViolation(o *outcome, prop, class, key string) *violation {
	for i := range o.viol {
		v := &o.viol[i]
		if v.has(prop) && v.Class == class && (key == "*" || v.Key == key) {
			return v
		}
	}
	return nil
}

// minimise shrinks the decisions of a failing run; the same violation stays.
func minimise(bin string, s runSpec, prop string, v violation, budget time.Duration) (runSpec, int) {
	end := time.Now().Add(budget)
	o := runSim(bin, s, false, true)
	if o.broken != "" || findViolation(o, prop, v.Class, v.Key) == nil {
		fmt.Fprintf(os.Stderr, "vtool: seed %d did not fail again: %s\n", s.Seed, o.broken)
		return s, 0
	}
	cur := *o.rec
	orig := cur.size()
	try := func(cs []choices) int { // index of the first candidate that still fails
		res := make([]bool, len(cs))
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				t := s
				t.Replay = &cs[i]
				r := runSim(bin, t, false, false)
				res[i] = r.broken == "" && findViolation(r, prop, v.Class, v.Key) != nil
			}()
		}
		wg.Wait()
		for i, ok := range res {
			if ok {
				return i
			}
		}
		return -1
	}
	if try([]choices{cur}) < 0 {
		fmt.Fprintf(os.Stderr, "vtool: the recorded decisions of seed %d do not reproduce the failure\n", s.Seed)
		return s, 0
	}
	order := []int{1, 2, 0, 3, 4, 5}
	// whole kinds first
	var cs []choices
	for _, k := range order {
		c := cur
		c[k] = nil
		cs = append(cs, c)
	}
	for range order {
		i := try(cs)
		if i < 0 {
			break
		}
		cur = cs[i]
		cs = cs[:0]
		for _, k := range order {
			if len(cur[k]) > 0 {
				c := cur
				c[k] = nil
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 {
			break
		}
	}
	// then ever smaller chunks
	for round := 0; round < 3 && time.Now().Before(end); round++ {
		before := cur.size()
		for _, k := range order {
			for n := (len(cur[k]) + 1) / 2; n >= 1 && time.Now().Before(end); {
				progress := false
				for at := 0; at < len(cur[k]) && time.Now().Before(end); {
					var cs []choices
					var ends []int
					for j, a := 0, at; j < 8 && a < len(cur[k]); j, a = j+1, a+n {
						c := cur
						c[k] = append(append([]choice(nil), cur[k][:a]...), cur[k][min(a+n, len(cur[k])):]...)
						cs = append(cs, c)
						ends = append(ends, a)
					}
					i := try(cs)
					if i >= 0 {
						cur = cs[i]
						at = ends[i]
						progress = true
					} else {
						at += 8 * n
					}
				}
				if n == 1 {
					if !progress {
						break
					}
				} else {
					n = (n + 1) / 2
				}
				if len(cur[k]) == 0 {
					break
				}
			}
		}
		if cur.size() == before {
			break
		}
	}
	s.Replay = &cur
	return s, orig
}

func writeReplay(bin string, s runSpec, prop string, v violation, orig int) string {
	dir := filepath.Join(verifDir, "replays")
	must(os.MkdirAll(dir, 0o755))
	o := runSim(bin, s, false, false)
	o2 := runSim(bin, s, false, false)
	w := findViolation(o, prop, v.Class, v.Key)
	if w == nil || o.print() != o2.print() {
		fmt.Fprintf(os.Stderr, "vtool: a violation of %s (%s, seed %d) does not replay: %s\n", prop, v.Class, s.Seed, v.Msg)
		return ""
	}
	r := replayFile{Property: prop, Class: v.Class, Key: v.Key, Message: w.Msg, Scenario: s.Scenario, Focus: s.Focus, Seed: s.Seed,
		Original: orig, Print: o.print(), Decisions: map[string]int{}}
	if s.Replay != nil {
		r.Choices = *s.Replay
		for k, c := range r.Choices {
			r.Decisions[kindNames[k]] = len(c)
		}
	}
	r.Trace = o.res.Log
	if len(r.Trace) == 0 {
		t := runSim(bin, s, true, false)
		r.Trace = strings.Split(tail(t.stderr, 20000), "\n")
	}
	b, err := json.MarshalIndent(&r, "", " ")
	must(err)
	name := strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' {
			return c
		}
		return '_'
	}, fmt.Sprintf("%s-%s-%d", prop, v.Class, s.Seed))
	p := filepath.Join(dir, name+".json")
	must(os.WriteFile(p, b, 0o644))
	return p
}

// replay runs a replay file against the current tree.
func replay(path string) int {
	b, err := os.ReadFile(path)
	must(err)
	var r replayFile
	must(json.Unmarshal(b, &r))
	bin := build()
	s := r.spec()
	if r.Original == 0 {
		s.Replay = nil
	}
	o := runSim(bin, s, true, false)
	fmt.Println(o.stderr)
	p := runSim(bin, s, false, false)
	if o.broken != "" || p.broken != "" {
		fmt.Println("the simulator failed:", o.broken, p.broken)
		return 2
	}
	if p.print() == r.Print {
		fmt.Println("the run is identical to the recorded one")
	} else {
		fmt.Println("the run differs from the recorded one (the code is not the same)")
	}
	if v := findViolation(p, r.Property, r.Class, r.Key); v != nil {
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", v.Msg, r.Property, path)
		return 1
	}
	fmt.Printf("no violation of %s (%s) in this run\n", r.Property, r.Class)
	return 0
}

// ---- a check -------------------------------------------------------------------

type totals struct {
	runs, nontriv                                         int
	evals                                                 uint64
	counts                                                map[string]uint64
	checked                                               map[string]uint64
	hist, scheds                                          map[uint64]bool
	simNs                                                 int64
	picks, switches, yields, holds, stalls, jumps, events uint64
	modes                                                 map[string]int
	scen                                                  map[string]int
	nviol                                                 int
	other                                                 map[string]int
	otherAt                                               map[string]string
}

func check(id, tier string) int {
	var p *propCheck
	for i := range propChecks {
		if propChecks[i].id == id {
			p = &propChecks[i]
		}
	}
	if p == nil {
		fatalf("no check for %s", id)
	}
	start := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		must(err)
		seed = n
	}
	budget, minBudget := 40*time.Second, 60*time.Second
	if tier == "thorough" {
		budget, minBudget = 10*time.Minute, 4*time.Minute
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		d, err := time.ParseDuration(s)
		must(err)
		budget = d
	}
	workers := 8
	ks := knownFindings()
	bin := build()
	buildD := time.Since(start)
	t := &totals{counts: map[string]uint64{}, checked: map[string]uint64{}, hist: map[uint64]bool{}, scheds: map[uint64]bool{}, modes: map[string]int{}, scen: map[string]int{}, other: map[string]int{}, otherAt: map[string]string{}}

	// one seed is one execution: show it again on every run of the check
	nDet := 0
	for i := 0; i < 6; i++ {
		s := p.specFor(seed, i)
		var pr [2]string
		var wg sync.WaitGroup
		for j := range pr {
			wg.Add(1)
			go func() {
				defer wg.Done()
				o := runSim(bin, s, false, j == 1)
				if o.broken != "" {
					pr[j] = fmt.Sprint("broken ", j, o.broken)
				} else {
					pr[j] = o.print()
				}
			}()
		}
		wg.Wait()
		if pr[0] != pr[1] {
			fatalf("seed %d of scenario %d is not repeatable:\n%s\n%s", s.Seed, s.Scenario, pr[0], pr[1])
		}
		nDet++
	}

	type hit struct {
		i int
		s runSpec
		v violation
	}
	var mu sync.Mutex
	var hits []hit
	var broken string
	next := 0
	searchStart := time.Now()
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if broken != "" || len(hits) > 0 || time.Since(searchStart) > budget {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				s := p.specFor(seed, i)
				o := runSim(bin, s, false, false)
				mu.Lock()
				if o.broken != "" {
					broken = fmt.Sprintf("seed %d scenario %d focus %d: %s", s.Seed, s.Scenario, s.Focus, o.broken)
					mu.Unlock()
					return
				}
				t.add(p, o)
				for _, v := range o.viol {
					if !v.has(p.id) {
						if !isKnown(ks, strings.Fields(v.Prop + " -")[0], v) {
							k := v.Prop + " " + v.Class
							t.other[k]++
							if t.otherAt[k] == "" {
								t.otherAt[k] = fmt.Sprintf("scenario %d focus %d seed %d", s.Scenario, s.Focus, s.Seed)
							}
						}
						continue
					}
					if isKnown(ks, p.id, v) {
						t.counts["known-finding:"+v.Class]++
						continue
					}
					t.nviol++
					hits = append(hits, hit{i, s, v})
					break
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchD := time.Since(searchStart)
	if broken != "" && len(hits) == 0 {
		fmt.Fprintln(os.Stderr, "vtool: the simulator failed:", broken)
		return 2
	}
	for _, k := range ks {
		if k.prop == p.id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, k.text)
		}
	}
	rc := 0
	var viol []string
	if len(hits) > 0 {
		sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })
		var path string
		var h hit
		var ms runSpec
		var orig int
		for _, h = range hits {
			ms, orig = h.s, 0
			if h.v.Class != "hang" {
				ms, orig = minimise(bin, h.s, p.id, h.v, minBudget)
			}
			if path = writeReplay(bin, ms, p.id, h.v, orig); path != "" {
				break
			}
		}
		if path == "" {
			return 2
		}
		fmt.Printf("%s %s: %s\n", p.id, h.v.Class, h.v.Msg)
		if ms.Replay != nil {
			fmt.Printf("seed %d scenario %d, run %d of the search; %d of %d decisions left after minimisation\n", h.s.Seed, h.s.Scenario, h.i, ms.Replay.size(), orig)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		viol = append(viol, path)
		rc = 1
	}
	writeEvidence(p, tier, seed, t, bin, nDet, buildD, searchD, time.Since(start), viol)
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial), %.0f simulated seconds, %.0f runs/hour, exit %d\n", p.id, tier, t.runs, len(t.hist), float64(t.simNs)/1e9, float64(t.runs)/searchD.Hours(), rc)
	for k, n := range t.other {
		fmt.Fprintf(os.Stderr, "vtool: note: %d violations of other properties: %s (%s)\n", n, k, t.otherAt[k])
	}
	return rc
}

func (t *totals) add(p *propCheck, o *outcome) {
	t.runs++
	r := &o.res
	ev := r.Checked[p.id]
	t.evals += ev
	for k, v := range r.Counts {
		t.counts[k] += v
	}
	for k, v := range r.Checked {
		t.checked[k] += v
	}
	if ev > 0 {
		t.nontriv++
		t.hist[r.LogHash] = true
	}
	t.scheds[r.SchedHash] = true
	t.simNs += r.SimNs
	t.picks += r.Picks
	t.switches += r.Switches
	t.yields += r.Yields
	t.holds += r.Holds
	t.stalls += r.Stalls
	t.jumps += r.Jumps
	t.events += r.Events
	t.scen[r.Scenario]++
}

func writeEvidence(p *propCheck, tier string, seed uint64, t *totals, bin string, nDet int, buildD, searchD, wall time.Duration, viol []string) {
	faults, events, known := map[string]uint64{}, map[string]uint64{}, map[string]uint64{}
	for k, v := range t.counts {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "known-finding:"):
			known[k[14:]] = v
		default:
			events[strings.TrimPrefix(k, "event:")] = v
		}
	}
	if t.stalls > 0 {
		faults["goroutine_stalled"] = t.stalls
	}
	var samples []any
	for i := 0; i < 2; i++ {
		s := p.specFor(seed, i)
		o := runSim(bin, s, true, false)
		lines := strings.Split(o.stderr, "\n")
		if len(lines) > 25 {
			lines = lines[:25]
		}
		for j, l := range lines {
			if len(l) > 200 {
				lines[j] = l[:200]
			}
		}
		samples = append(samples, map[string]any{"seed": s.Seed, "scenario": o.res.Scenario, "focus": s.Focus, "events": o.res.Events,
			"simulated_s": float64(o.res.SimNs) / 1e9, "picks": o.res.Picks, "first_events": lines})
	}
	real, stubs := p.components()
	e := map[string]any{
		"property": p.id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":           t.runs,
			"distinct_nontrivial":   len(t.hist),
			"rule":                  "each run is one seed: topology, workload, scheduling, clock and faults are drawn from it; " + p.rule,
			"samples":               samples,
			"oracle_evaluations":    t.evals,
			"runs_per_hour":         int(float64(t.runs) / searchD.Hours()),
			"seeds_per_hour":        int(float64(t.runs) / searchD.Hours()),
			"simulated_seconds":     float64(t.simNs) / 1e9,
			"faults_injected":       faults,
			"other_events":          events,
			"known_findings_seen":   known,
			"scenarios":             t.scen,
			"distinct_schedules":    len(t.scheds),
			"distinct_measure":      "schedules: hash of the sequence of goroutines picked at every scheduling decision; histories: hash of all observed events and their simulated times",
			"scheduling_decisions":  t.picks,
			"goroutine_switches":    t.switches,
			"forced_yields":         t.yields,
			"goroutines_held_up":    t.holds,
			"clock_jumps":           t.jumps,
			"observed_events":       t.events,
			"repeatability_checked": fmt.Sprintf("%d seeds run twice in separate processes, identical", nDet),
			"real_code":             real,
			"stubs":                 stubs,
			"build_s":               buildD.Seconds(),
			"search_s":              searchD.Seconds(),
			"replays":               viol,
		},
		"assumptions": commonAssumptions,
		"wall_s":      wall.Seconds(),
		"violations":  len(viol),
	}
	b, err := json.MarshalIndent(e, "", " ")
	must(err)
	dir := filepath.Join(verifDir, "evidence")
	must(os.MkdirAll(dir, 0o755))
	must(os.WriteFile(filepath.Join(dir, p.id+".json"), append(b, '\n'), 0o644))
}
