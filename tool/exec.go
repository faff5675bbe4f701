package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"syscall"
	"time"
)

const (
	nKinds = 6
	maxRec = 1 << 20
	hdrLen = 512
)

type choice struct{ Idx, Val uint32 }

type choices [nKinds][]choice

func (c *choices) size() (n int) {
	for _, k := range c {
		n += len(k)
	}
	return
}

// runSpec fully determines one simulated run.
type runSpec struct {
	Seed     uint64
	Scenario byte
	Focus    byte
	Replay   *choices // nil: choices come from the seed
}

type violation struct{ Prop, Class, Key, Msg string }

func (v violation) has(prop string) bool {
	for _, p := range strings.Fields(v.Prop) {
		if p == prop {
			return true
		}
	}
	return false
}

func (v violation) sig() string { return v.Prop + " " + v.Class + " " + v.Key }

type simResult struct {
	Scenario   string
	Violations []violation
	Counts     map[string]uint64
	Checked    map[string]uint64
	LogHash    uint64
	Events     uint64
	SimNs      int64
	BusyNs     int64
	Picks      uint64
	Switches   uint64
	Yields     uint64
	Holds      uint64
	YieldPts   uint64
	Stalls     uint64
	Jumps      uint64
	Selects    uint64
	SchedHash  uint64
	Overflow   bool
	Goroutines int
	Log        []string
}

type outcome struct {
	res    simResult
	viol   []violation // includes crashes
	exit   int
	stderr string
	broken string // the simulator itself failed
	rec    *choices
	wall   time.Duration
}

// fingerprint of everything observable about a run
func (o *outcome) print() string {
	return fmt.Sprintf("%d/%x/%x/%d/%d/%v", o.exit, o.res.LogHash, o.res.SchedHash, o.res.Picks, o.res.SimNs, o.viol)
}

var allProps []string // for crashes, which concern every property

func runSim(bin string, s runSpec, trace, record bool) *outcome {
	o := &outcome{}
	start := time.Now()
	var in bytes.Buffer
	hdr := make([]byte, hdrLen)
	binary.BigEndian.PutUint64(hdr, s.Seed)
	if s.Replay != nil {
		hdr[8] = 1
	}
	if trace {
		hdr[9] = 1
		hdr[17] = 1
	}
	hdr[16] = s.Scenario
	hdr[18] = s.Focus
	var recF *os.File
	if record {
		hdr[10] = 1
		var err error
		recF, err = os.CreateTemp(buildDir, "rec-*")
		must(err)
		os.Remove(recF.Name())
		defer recF.Close()
		must(recF.Truncate(nKinds * maxRec * 8))
	}
	in.Write(hdr)
	if s.Replay != nil {
		for k := 0; k < nKinds; k++ {
			binary.Write(&in, binary.LittleEndian, uint32(len(s.Replay[k])))
			binary.Write(&in, binary.LittleEndian, s.Replay[k])
		}
	}
	r, w, err := os.Pipe()
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	c.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=all"}
	c.Dir = "/"
	c.ExtraFiles = []*os.File{r}
	if recF != nil {
		c.ExtraFiles = append(c.ExtraFiles, recF)
	}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		fatalf("start %s: %v", bin, err)
	}
	r.Close()
	go func() {
		w.Write(in.Bytes())
		w.Close()
	}()
	err = c.Wait()
	o.wall = time.Since(start)
	o.stderr = se.String()
	o.exit = c.ProcessState.ExitCode()
	if ctx.Err() != nil {
		// runs take well under a second: something spins without ever reaching
		// a scheduling point
		o.viol = append(o.viol, violation{Prop: strings.Join(allProps, " "), Class: "hang", Msg: "no end within 100 s of real time"})
		return o
	}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			if e := json.Unmarshal([]byte(l[7:]), &o.res); e != nil {
				o.broken = "bad result: " + e.Error()
			}
			o.viol = o.res.Violations
		}
	}
	if o.exit != 0 && o.broken == "" {
		if v, ok := crashViolation(o.stderr, o.exit); ok {
			o.viol = append(o.viol, v)
		} else {
			o.broken = fmt.Sprintf("exit %d: %s", o.exit, tail(o.stderr, 2000))
		}
	} else if o.exit == 0 && o.res.Scenario == "" && o.broken == "" {
		o.broken = "no result"
	}
	if recF != nil {
		o.rec = readRecord(recF)
	}
	return o
}

func readRecord(f *os.File) *choices {
	m, err := syscall.Mmap(int(f.Fd()), 0, nKinds*maxRec*8, syscall.PROT_READ, syscall.MAP_SHARED)
	must(err)
	defer syscall.Munmap(m)
	var c choices
	for k := 0; k < nKinds; k++ {
		for i := 0; i < maxRec; i++ {
			p := (k*maxRec + i) * 8
			v := binary.LittleEndian.Uint32(m[p+4:])
			if v == 0 {
				break
			}
			c[k] = append(c[k], choice{binary.LittleEndian.Uint32(m[p:]), v})
		}
	}
	return &c
}

var (
	rePanic = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|VERIF-STEP-BUDGET.*)$`)
	reFrame = regexp.MustCompile(`(?m)^(github\.com/livekit/psrpc[^\s(]*(?:\([^)]*\))?[^\s(]*)\(`)
	reHex   = regexp.MustCompile(`0x[0-9a-f]+|\d{3,}|goroutine \d+`)
	reAddr  = regexp.MustCompile(`0x[0-9a-f]{2,}\??`) // addresses of the process differ from run to run
	reGen   = regexp.MustCompile(`\[[^\]]*\]`)
)

// crashViolation turns the death of the simulated process into a violation.
func crashViolation(stderr string, exit int) (violation, bool) {
	m := rePanic.FindStringIndex(stderr)
	if m == nil {
		return violation{}, false
	}
	msg := stderr[m[0]:m[1]]
	frame := ""
	for _, f := range reFrame.FindAllStringSubmatch(stderr[m[1]:], -1) {
		if strings.Contains(f[1], "internal/verifsim") {
			if frame == "" {
				frame = "harness"
			}
			continue
		}
		frame = f[1]
		break
	}
	frame = strings.TrimPrefix(reGen.ReplaceAllString(frame, ""), "github.com/livekit/psrpc/")
	class := "crash"
	if strings.HasPrefix(msg, "VERIF-STEP") {
		class, msg, frame = "livelock", "no progress within the step budget", ""
	}
	if strings.Contains(msg, "all goroutines are asleep") {
		class = "deadlock"
	}
	if class == "crash" && frame == "harness" || strings.Contains(msg, "VERIF-HARNESS") {
		return violation{}, false
	}
	return violation{Prop: strings.Join(allProps, " "), Class: class, Key: reHex.ReplaceAllString(msg, "N") + "@" + frame, Msg: reAddr.ReplaceAllString(tail(stderr[m[0]:], 0), "0x?")}, true
}

func tail(s string, n int) string {
	if n == 0 {
		if len(s) > 3000 {
			return s[:3000]
		}
		return s
	}
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
