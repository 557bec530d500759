#!/usr/bin/env python3
"""Source of MANIFEST.json (run to regenerate)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from profiles import CHECKS
NOTE = {}
BASE_NOTE = ("Seeded random search: assurance grows with the number of simulated runs, nothing is enumerated exhaustively. "
             "Real: all library code of the listed backend, libstdc++, glibc heap users. Simulated: threads' scheduling, futexes/mutexes/condition variables, "
             "clocks, timeouts, signals, file writes. Trusted: the simulator, the reference model and the history oracles. "
             "Memory model: sequentially consistent (interleavings at every instrumented memory access, no weak-memory reordering).")
NA = {
    "V01": "Variant comparison, conversion and copying are pure functions of their operands: no schedule, time, I/O, fault or second party for a simulation to control.",
    "V02": "The SCXML code generator is a single-threaded function from an input file to output text: no schedule, time, fault or second party takes part in its result.",
}
TECH = {}
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/build.py " + " ".join(sorted({r[0] for c in CHECKS.values() for r in c["runs"]})), "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "python3 tools/check.py %s --thorough" % p,
                            "technique": TECH.get(p, "deterministic simulation with fault injection: seeded search over schedules, timing and faults, history checked against a reference model"),
                            "level": "exploration", "level_note": NOTE.get(p, BASE_NOTE)})
    else:
        m["not_applicable"].append({"property": p, "reason": NA[p]})
m["notes"] = "No hooks in /repo: the simulator interposes on the compiler's memory-access callbacks and on libc. Replay a failure with: python3 tools/replay.py FILE"
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
