#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the checks in tool/props.go."""
import json, re, subprocess
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
claimed = re.findall(r'\{id: "(P\d+)"', open('/verif/tool/props.go').read())
na = {
 "P30": "the error mappings are pure functions of one code: no schedule, clock, I/O, fault or second party for deterministic simulation to vary",
 "P31": "the generator is a pure function of its descriptor input, run at build time: no schedule, clock, I/O, fault or second party for deterministic simulation to vary (the simulated system does run the stubs this tree's generator emits)",
}
titles = {p["id"]: p["title"] for p in props}
checks = [{
  "property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
  "technique": "deterministic simulation with fault injection: seeded search over schedules, clocks, workloads and faults of the real code, with invariants and history oracles",
  "level": "exploration",
  "level_note": "seeded search, not exhaustive; one seed is one repeatable execution of the real code under a simulated scheduler, clock and network; " + titles[p],
} for p in claimed]
m = {"version": 1, "setup_cmd": "./setup.sh",
 "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator enters through go build -overlay (runtime, sync, internal/verifsim and instrumented copies of /repo's packages)", "source_commits": []},
 "checks": checks,
 "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "check not built yet")} for p in props if p["id"] not in claimed],
 "notes": "See DESIGN.md. KNOWN-FINDINGS.txt lists genuine defects: repaired ones (fixed:) and recorded ones (finding:)."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json','a').write('\n')
