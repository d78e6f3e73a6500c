#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_SAT = "deterministic simulation with fault injection (satsim: the tools on a simulated operating system, seeded scenarios, reference model)"
CLAIM = {}
for p in ("S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11 S12").split():
    CLAIM[p] = (T_SAT, "Seeded search, not exhaustive: thousands of simulated executions of the real programs per quick run; every execution is replayable from its file. Trusts the simulated operating system and the reference model of the scan (sim/model.cpp).")
NA = {
    "N01": "pure functions of their arguments: no schedule, clock, fault, I/O or history for a simulator to vary",
    "N02": "numerical accuracy of a pure computation against published results: nothing a simulator could schedule or fail",
    "N03": "pure geometry of its arguments: no schedule, clock, fault or I/O in it",
    "N04": "pure functions of their arguments; their one shared resource (static result buffers) is covered by L01",
    "N05": "correctness of geometry and of a search over computed positions: a pure function of request and catalogue bytes; what depends on faults and order around it is in S01-S12",
}
extra = os.path.join(V, "tools", "claims.json")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
if os.path.exists(extra):
    for p, (t, n) in json.load(open(extra)).items():
        CLAIM[p] = (t, n)
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                 "technique": CLAIM[p][0], "level": "exploration", "level_note": CLAIM[p][1]} for p in ids if p in CLAIM],
     "not_applicable": [{"property": p, "reason": NA.get(p, "not built yet")} for p in ids if p not in CLAIM],
     "notes": "No hooks in /repo: system calls are redirected at link time (objcopy) or by LD_PRELOAD, and thread switches come from compiler instrumentation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
