package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// paths of this installation
var (
	verifDir = "/verif"
	repoDir  = "/repo"
	buildDir string
)

func goEnv() []string {
	e := os.Environ()
	return append(e, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off")
}

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = goEnv()
	return c
}

func goroot() string {
	b, err := goCmd(repoDir, "env", "GOROOT").Output()
	must(err)
	return strings.TrimSpace(string(b))
}

func run(c *exec.Cmd) {
	out, err := c.CombinedOutput()
	if err != nil {
		os.Stderr.Write(out)
		fatalf("%s: %v", strings.Join(c.Args, " "), err)
	}
}

// packages of the module under test that get yield points: everything that
// is shipped except the code generator.
func repoPackages() []string {
	set := map[string]bool{}
	must(filepath.WalkDir(repoDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repoDir, p)
		if d.IsDir() {
			if rel != "." && (strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata" || d.Name() == "vendor") ||
				rel == "protoc-gen-psrpc" || rel == "internal/test" || rel == "internal/verifsim" || rel == "internal/bus/bustest" {
				return filepath.SkipDir
			}
			if rel != "." {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if strings.HasSuffix(rel, ".go") && !strings.HasSuffix(rel, "_test.go") {
			set[filepath.Dir(rel)] = true
		}
		return nil
	}))
	var r []string
	for k := range set {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// build makes the simulator from the current working tree; returns the
// binary. Concurrent builds wait for each other.
func build() string {
	must(os.MkdirAll(buildDir, 0o755))
	lk, err := os.OpenFile(filepath.Join(buildDir, "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	must(err)
	must(syscall.Flock(int(lk.Fd()), syscall.LOCK_EX))
	defer lk.Close()

	// the service the harness implements, as generated by the tree's generator
	gen := filepath.Join(buildDir, "gen")
	must(os.MkdirAll(gen, 0o755))
	run(goCmd(repoDir, "build", "-o", filepath.Join(buildDir, "protoc-gen-psrpc"), "./protoc-gen-psrpc"))
	pc := exec.Command("protoc", "--plugin=protoc-gen-psrpc="+filepath.Join(buildDir, "protoc-gen-psrpc"),
		"--psrpc_out=paths=source_relative:"+gen, "-I", filepath.Join(repoDir, "protoc-gen-psrpc/options"), "-I", ".", "sim.proto")
	pc.Dir = filepath.Join(verifDir, "simproto")
	run(pc)

	o := newOverlay(filepath.Join(buildDir, "ov"))
	runtimeOverlay(o, goroot(), verifDir)
	simDir := filepath.Join(repoDir, "internal/verifsim")
	ents, err := os.ReadDir(filepath.Join(verifDir, "sim"))
	must(err)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			o.link(filepath.Join(simDir, e.Name()), filepath.Join(verifDir, "sim", e.Name()))
		}
	}
	o.link(filepath.Join(simDir, "simpb/sim.pb.go"), filepath.Join(verifDir, "simproto/sim.pb.go"))
	o.link(filepath.Join(simDir, "simpb/sim.psrpc.go"), filepath.Join(gen, "sim.psrpc.go"))
	n := 0
	for _, d := range repoPackages() {
		n += instrumentDir(o, filepath.Join(repoDir, d), n)
	}
	o.link(filepath.Join(repoDir, "internal/bus/zz_verif.go"), filepath.Join(verifDir, "sim/zz_bus.go.txt"))
	ov := o.write()
	bin := filepath.Join(buildDir, "sim")
	run(goCmd(repoDir, "build", "-trimpath", "-tags", "faketime", "-overlay", ov, "-o", bin+".new", "./internal/verifsim"))
	must(os.Rename(bin+".new", bin))
	// a private copy, so that a concurrent rebuild cannot change it
	b, err := os.ReadFile(bin)
	must(err)
	h := sha256.Sum256(b)
	priv := filepath.Join(buildDir, "sim-"+hex.EncodeToString(h[:6]))
	if _, err := os.Stat(priv); err != nil {
		old, _ := filepath.Glob(filepath.Join(buildDir, "sim-*"))
		for _, p := range old {
			if fi, err := os.Stat(p); err == nil && time.Since(fi.ModTime()) > 2*time.Hour {
				os.Remove(p) // nothing runs it any more
			}
		}
		must(os.WriteFile(priv+".new", b, 0o755))
		must(os.Rename(priv+".new", priv))
	}
	fmt.Fprintf(os.Stderr, "vtool: built %s, %d yield points\n", filepath.Base(priv), n)
	return priv
}
