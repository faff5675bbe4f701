package main

import (
	"fmt"
	"os"
	"strconv"
)

func main() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	buildDir = verifDir + "/.build"
	for _, p := range propChecks {
		allProps = append(allProps, p.id)
	}
	switch os.Args[1] {
	case "build":
		bin := build()
		for _, p := range propChecks {
			for i := 0; i < 3; i++ {
				if o := runSim(bin, p.specFor(1, i), false, false); o.broken != "" {
					fatalf("%s", o.broken)
				}
			}
		}
		fmt.Println(bin)
	case "seed": // seed N [scenario focus]: one traced run
		s := runSpec{Seed: atou(os.Args[2]), Scenario: 1}
		if len(os.Args) > 3 {
			s.Scenario = byte(atoi(os.Args[3]))
		}
		if len(os.Args) > 4 {
			s.Focus = byte(atoi(os.Args[4]))
		}
		o := runSim(build(), s, true, false)
		fmt.Println(o.stderr)
		fmt.Printf("exit %d broken %q wall %v\n%+v\n", o.exit, o.broken, o.wall, o.viol)
	case "check": // check PROPERTY TIER
		os.Exit(check(os.Args[2], os.Args[3]))
	case "mix": // mix PROPERTY n: violations of it in its own mix
		for i := range propChecks {
			if propChecks[i].id == os.Args[2] {
				mixed(build(), &propChecks[i], atoi(os.Args[3]))
			}
		}
	case "kill": // kill n: the first violation of any property, over all mixes
		kill(build(), atoi(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "sweep": // sweep scenario focus n [from]: violations by class
		from := 0
		if len(os.Args) > 5 {
			from = atoi(os.Args[5])
		}
		sweep(build(), byte(atoi(os.Args[2])), byte(atoi(os.Args[3])), atoi(os.Args[4]), from)
	}
}

func atou(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	must(err)
	return n
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	must(err)
	return n
}
