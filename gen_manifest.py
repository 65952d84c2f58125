#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C20": "pure functions of in-memory tables: no schedule, clock, I/O, fault or second party to simulate",
    "C21": "a pure function of the value stream: no schedule, clock, I/O, fault or second party to simulate",
    "C22": "closed-form functions of a label and a score: nothing a simulator could schedule or fail",
    "C23": "a pure function of a number: nothing a simulator could schedule or fail",
    "C24": "pure predicates over a parameter object: nothing a simulator could schedule or fail",
    "C25": "a single-threaded local computation without I/O or peers: nothing a simulator could schedule or fail",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if os.path.exists(os.path.join(ROOT, "sim/props", i.lower() + ".py")):
        checks.append({
            "property": i, "level": "exploration",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and "
                         "inputs of the real parties on a simulated network, judged by a reference model; replayable "
                         "and minimised",
            "level_note": "seeded sampling of schedules, faults and inputs on the real code; a clean run is evidence, "
                          "not proof",
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        })
    elif i in NA:
        na.append({"property": i, "reason": NA[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
