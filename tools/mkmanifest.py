#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/props.py (run from /verif)."""
import json, sys
sys.path.insert(0, "lib")
sys.dont_write_bytecode = True
from props import P
NA = {}
rows = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for r in rows:
    i = r["id"]
    if i not in P:
        continue
    checks.append({
        "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and crash points of the whole proxy in one process against a homeserver reference model",
        "level": "exploration",
        "level_note": "Seeded search, not exhaustive: assurance grows with the number of distinct schedules (see evidence). Real proxy code and real PostgreSQL; homeserver, clients, network, clock and scheduler are simulated. Verdict classes: " + ", ".join(P[i]["classes"]) + ".",
    })
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator replaces cmd/syncv3's main package and the Go runtime's scheduler choices through go build -overlay (build.sh)", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "./check replay FILE reproduces a reported violation. See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
