#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
NA = {
    "C23": "mathematical functions of their arguments: no schedule, clock, I/O, fault or history enters (what they contribute to an intensity is checked in C24)",
}
MODEL = "deterministic simulation with fault injection: seeded histories of loads, changes and questions with disk and allocation faults on simulated I/O and memory, every answer compared with an executable reference model that follows the history"
HOW = {
    "C25": "deterministic simulation with fault injection: seeded call histories executed by an embedded interpreter on the compiled Python classes with simulated disk and allocator, every answer and exception compared with the C++ library's in the same state",
    "C06": "deterministic simulation: seeded scheduler interleaving simulated threads at every memory access, happens-before race check, answers compared with sequential ones",
    "C20": MODEL, "C21": MODEL, "C22": MODEL, "C24": MODEL,
    "C19": "deterministic simulation: seeded histories executed twice under different contents of uninitialised memory, answers compared bit by bit",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if i == "C06" and not os.path.exists(os.path.join(H, "sim", "sched.cpp")):
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({
        "property": i, "level": "exploration",
        "technique": HOW.get(i, "deterministic simulation with fault injection: seeded histories of operations, disk and allocation faults on simulated I/O and memory, compared step by step with a reference model"),
        "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "level_note": "seeded search: no violation in the runs executed, no proof for the others",
        "evidence_file": "evidence/%s.json" % i,
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "Replay a violation with: python3 check.py replay FILE"}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
