package main

import (
	"fmt"
	"sort"
	"sync"
	"time"
)

// mixed runs a property's own mix and counts what violates it.
func mixed(bin string, p *propCheck, n int) {
	known := knownFindings()
	var mu sync.Mutex
	var wg sync.WaitGroup
	hits := map[string]int{}
	first := map[string]string{}
	runs := 0
	ch := make(chan int)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range ch {
				sp := p.specFor(1, s)
				o := runSim(bin, sp, false, false)
				mu.Lock()
				bad := false
				if o.broken != "" {
					hits["BROKEN "+o.broken]++
				}
				for _, v := range o.viol {
					if !v.has(p.id) || isKnown(known, p.id, v) {
						continue
					}
					if first[v.Class] == "" {
						first[v.Class] = fmt.Sprintf("seed %d %d %d: %.200s", sp.Seed, sp.Scenario, sp.Focus, v.Msg)
					}
					hits[v.Class]++
					bad = true
				}
				if bad {
					runs++
				}
				mu.Unlock()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	fmt.Printf("%s: %d of %d runs violate it %v\n", p.id, runs, n, hits)
	for c, m := range first {
		fmt.Printf("    %s: %s\n", c, m)
	}
}

// kill runs all mixes in turn until a property is violated.
func kill(bin string, n int) {
	known := knownFindings()
	var mu sync.Mutex
	var wg sync.WaitGroup
	done := false
	next := 0
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				k := next
				next++
				stop := done || k >= n
				mu.Unlock()
				if stop {
					return
				}
				p := &propChecks[k%len(propChecks)]
				sp := p.specFor(1, k/len(propChecks))
				o := runSim(bin, sp, false, false)
				msg := ""
				if o.broken != "" {
					msg = "BROKEN " + o.broken
				}
				for _, v := range o.viol {
					if v.has(p.id) && !isKnown(known, p.id, v) {
						msg = fmt.Sprintf("%s %s %.160s", p.id, v.Class, v.Msg)
					}
				}
				mu.Lock()
				if msg != "" && !done {
					done = true
					fmt.Printf("KILLED at %d: seed %d %d %d: %.300s\n", k, sp.Seed, sp.Scenario, sp.Focus, msg)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if !done {
		fmt.Printf("ALIVE after %d\n", n)
	}
}

func sweep(bin string, sc, focus byte, n, from int) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	type hit struct {
		seeds []int
		msg   string
	}
	hits := map[string]*hit{}
	var simNs, picks int64
	counts := map[string]uint64{}
	checked := map[string]uint64{}
	ch := make(chan int)
	start := time.Now()
	var maxPicks uint64
	nondet := 0
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range ch {
				o := runSim(bin, runSpec{Seed: uint64(s), Scenario: sc, Focus: focus}, false, false)
				var o2 *outcome
				if s%50 == 0 {
					o2 = runSim(bin, runSpec{Seed: uint64(s), Scenario: sc, Focus: focus}, false, false)
				}
				mu.Lock()
				if o2 != nil && o2.print() != o.print() {
					nondet++
					fmt.Println("NONDETERMINISTIC", s, o.print(), o2.print())
				}
				if o.broken != "" {
					o.viol = append(o.viol, violation{"BROKEN", o.broken, "", ""})
				}
				seen := map[string]bool{}
				for _, v := range o.viol {
					p := v.Prop
					if v.Class == "crash" || v.Class == "livelock" || v.Class == "deadlock" {
						p = "*"
					}
					k := p + " " + v.Class + " " + v.Key
					if seen[k] {
						continue
					}
					seen[k] = true
					if hits[k] == nil {
						hits[k] = &hit{msg: v.Msg}
					}
					hits[k].seeds = append(hits[k].seeds, s)
				}
				simNs += o.res.SimNs
				picks += int64(o.res.Picks)
				maxPicks = max(maxPicks, o.res.Picks)
				for k, v := range o.res.Counts {
					counts[k] += v
				}
				for k, v := range o.res.Checked {
					checked[k] += v
				}
				mu.Unlock()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- from + i
	}
	close(ch)
	wg.Wait()
	d := time.Since(start)
	fmt.Printf("%d runs in %v: %.0f/s, %.1f sim s/run, %.0f picks/run (max %d)\n", n, d, float64(n)/d.Seconds(), float64(simNs)/1e9/float64(n), float64(picks)/float64(n), maxPicks)
	fmt.Println("counts", counts)
	fmt.Println("checked", checked)
	var ks []string
	for k := range hits {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return len(hits[ks[i]].seeds) > len(hits[ks[j]].seeds) })
	for _, k := range ks {
		h := hits[k]
		s := h.seeds
		sort.Ints(s)
		if len(s) > 6 {
			s = s[:6]
		}
		m := h.msg
		if len(m) > 300 {
			m = m[:300]
		}
		fmt.Printf("%5d  %s  seeds %v\n         %s\n", len(h.seeds), k, s, m)
	}
	_ = nondet
}
