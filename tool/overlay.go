package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// overlay collects replacement files for `go build -overlay`.
type overlay struct {
	dir string // where generated files go
	m   map[string]string
	n   int
}

func newOverlay(dir string) *overlay {
	must(os.MkdirAll(dir, 0o755))
	return &overlay{dir: dir, m: map[string]string{}}
}

// put registers content as the replacement of path.
func (o *overlay) put(path string, content []byte) {
	o.n++
	name := strings.NewReplacer("/", "_", "@", "_").Replace(strings.TrimPrefix(path, "/"))
	p := filepath.Join(o.dir, name)
	writeIfChanged(p, content)
	o.m[path] = p
}

// link registers an existing file as the replacement of path.
func (o *overlay) link(path, file string) { o.m[path] = file }

func (o *overlay) write() string {
	b, err := json.MarshalIndent(map[string]any{"Replace": o.m}, "", " ")
	must(err)
	p := filepath.Join(o.dir, "overlay.json")
	writeIfChanged(p, b)
	return p
}

func writeIfChanged(p string, b []byte) {
	old, err := os.ReadFile(p)
	if err == nil && string(old) == string(b) {
		return
	}
	must(os.WriteFile(p, b, 0o644))
}

type sub struct{ old, new string }

func patchFile(o *overlay, path string, subs ...sub) {
	b, err := os.ReadFile(path)
	must(err)
	s := string(b)
	for _, r := range subs {
		if strings.Count(s, r.old) != 1 {
			fatalf("%s: expected exactly one occurrence of %q, found %d", path, r.old, strings.Count(s, r.old))
		}
		s = strings.Replace(s, r.old, r.new, 1)
	}
	o.put(path, []byte(s))
}

// runtimeOverlay puts scheduler, clock, randomness of the Go runtime under
// the simulator's control.
func runtimeOverlay(o *overlay, goroot, verifDir string) {
	rt := filepath.Join(goroot, "src/runtime")
	o.link(filepath.Join(rt, "verifsim.go"), filepath.Join(verifDir, "rt/verifsim.go.txt"))
	patchFile(o, filepath.Join(rt, "proc.go"),
		sub{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		sub{"	if pp.schedtick%61 == 0 && !sched.runq.empty() {", "	if false {"},
		sub{"	// Poll network.\n	// This netpoll is only an optimization", "	if verifIdle(pollUntil) {\n		goto top\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization"},
		sub{"	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	newg.verifNode = callergp.verifNode\n	newg.verifLocks = 0\n	newg.verifHold = 0\n"},
		sub{"	// If there's a runnext, it's the next G to run.\n	next := pp.runnext", "	if gp := verifPick(pp); gp != nil {\n		return gp, false\n	}\n	next := pp.runnext"},
	)
	patchFile(o, filepath.Join(rt, "runtime2.go"),
		sub{"	goid         uint64\n	schedlink    guintptr\n", "	goid         uint64\n	verifNode    uint32\n	verifLocks   int32\n	verifHold    int64\n	schedlink    guintptr\n"},
	)
	patchFile(o, filepath.Join(rt, "time.go"),
		sub{"	return time_now()\n", "	sec, nsec, mono = time_now()\n	if k := verifSkew(); k != 0 {\n		w := sec*1e9 + int64(nsec) + k\n		sec, nsec = w/1e9, int32(w%1e9)\n	}\n	return\n"},
	)
	patchFile(o, filepath.Join(rt, "rand.go"),
		sub{"	seed := &globalRand.seed\n	if len(startupRand) >= 16", "	verifEarlyInit()\n	seed := &globalRand.seed\n	startupRand = nil\n	verifSeedRand(seed[:])\n	if true {\n	} else if len(startupRand) >= 16"},
	)
	patchFile(o, filepath.Join(rt, "select.go"),
		sub{"j := cheaprandn(uint32(norder + 1))", "j := verifSelectJ(uint32(norder + 1))"},
		sub{"func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	VerifYield()\n"},
	)
	patchFile(o, filepath.Join(rt, "chan.go"),
		sub{"func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	VerifYield()\n"},
		sub{"func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	VerifYield()\n"},
		sub{"func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	VerifYield()\n"},
	)
	patchFile(o, filepath.Join(rt, "malloc.go"),
		sub{"randomizeHeapBase = goexperiment.RandomizedHeapBase64 && goarch.PtrSize == 8 && !isSbrkPlatform && !raceenabled && !msanenabled && !asanenabled", "randomizeHeapBase = false && goexperiment.RandomizedHeapBase64 && !isSbrkPlatform && !msanenabled"},
	)
	patchFile(o, filepath.Join(goroot, "src/internal/runtime/maps/runtime_alg.go"),
		sub{`if (goarch.GOARCH == "386" || goarch.GOARCH == "amd64") &&`, `if false && (goarch.GOARCH == "386" || goarch.GOARCH == "amd64") &&`},
	)
	b, err := os.ReadFile(filepath.Join(rt, "time_fake.go"))
	must(err)
	s := string(b)
	i := strings.Index(s, "func write(fd uintptr")
	if i < 0 {
		fatalf("time_fake.go: write not found")
	}
	s = s[:i] + "func write(fd uintptr, p unsafe.Pointer, n int32) int32 {\n	return write1(fd, p, n)\n}\n"
	o.put(filepath.Join(rt, "time_fake.go"), []byte(s))

	sy := filepath.Join(goroot, "src/sync")
	patchFile(o, filepath.Join(sy, "mutex.go"),
		sub{"import (\n", "import (\n	\"runtime\"\n"},
		sub{"func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	runtime.VerifYield()\n	runtime.VerifLocks(1)\n"},
		sub{"func (m *Mutex) Unlock() {\n", "func (m *Mutex) Unlock() {\n	runtime.VerifLocks(-1)\n"},
	)
	patchFile(o, filepath.Join(sy, "rwmutex.go"),
		sub{"import (\n", "import (\n	\"runtime\"\n"},
		sub{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime.VerifYield()\n	runtime.VerifLocks(1)\n"},
		sub{"func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n	runtime.VerifLocks(-1)\n"},
		sub{"func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n	runtime.VerifYield()\n"},
	)
	patchFile(o, filepath.Join(goroot, "src/crypto/internal/sysrand/rand.go"),
		sub{"func Read(b []byte) {\n", "func Read(b []byte) {\n	if true {\n		runtime.VerifRandRead(b)\n		return\n	}\n"},
		sub{"import (\n", "import (\n	\"runtime\"\n"},
	)
}

// instrument inserts a yield point before every statement of every function
// of the package directory's non-test files. Line numbers do not change.
func instrumentDir(o *overlay, dir string, first int) int {
	site := first
	ents, err := os.ReadDir(dir)
	must(err)
	n := 0
	for _, e := range ents {
		name := e.Name()
		if e.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") || strings.HasSuffix(name, ".pb.go") {
			continue
		}
		p := filepath.Join(dir, name)
		src, err := os.ReadFile(p)
		must(err)
		out, k := instrument(p, src, &site)
		n += k
		if k > 0 {
			o.put(p, out)
		}
	}
	return n
}

func instrument(path string, src []byte, site *int) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		fatalf("parse %s: %v", path, err)
	}
	var offs []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			offs = append(offs, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	// a switch's or select's body holds only clauses: no statement may precede those
	drop := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.SwitchStmt:
			b = x.Body
		case *ast.TypeSwitchStmt:
			b = x.Body
		case *ast.SelectStmt:
			b = x.Body
		}
		if b != nil {
			for _, s := range b.List {
				drop[fset.Position(s.Pos()).Offset] = true
			}
		}
		return true
	})
	uniq := map[int]bool{}
	var keep []int
	for _, x := range offs {
		if !drop[x] && !uniq[x] {
			uniq[x] = true
			keep = append(keep, x)
		}
	}
	if len(keep) == 0 {
		return src, 0
	}
	sort.Ints(keep)
	pkgEnd := fset.Position(f.Name.End()).Offset
	var sb strings.Builder
	last := 0
	sb.Write(src[:pkgEnd])
	last = pkgEnd
	sb.WriteString(`; import verifrt "runtime"`)
	for _, x := range keep {
		sb.Write(src[last:x])
		*site++
		fmt.Fprintf(&sb, "verifrt.VerifYieldAt(%d);", *site)
		last = x
	}
	sb.Write(src[last:])
	return []byte(sb.String()), len(keep)
}

func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vtool: "+f+"\n", a...)
	os.Exit(2)
}
