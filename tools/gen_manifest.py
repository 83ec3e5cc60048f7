"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst.registry import PROPS
PY = "/opt/venv/bin/python"
NA = {
    "N01": "a pure function of its input string or number: no schedule, clock, fault or interleaving can influence it, so simulation would only be input generation under another name",
    "N02": "a pure transformation of a complete file in memory: its outcome depends on no schedule, clock or fault (edits and saves of schematics under faults are E03 and E04)",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in PROPS:
        p = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "%s -m dst.check %s --tier quick" % (PY, i),
            "thorough_cmd": "%s -m dst.check %s --tier thorough" % (PY, i),
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults (%s harness)" % p["harness"],
            "level": "exploration",
            "level_note": p.get("note") or "real spicelib code under a simulated scheduler, clock, process table%s; %d seeded runs quick, %d thorough; sampling, not exhaustive" % (
                " and network" if p["harness"] == "clientserver" else "", p["runs"][0], p["runs"][1]),
        })
    else:
        na.append({"property": i, "reason": "harness under construction"})
m = {"version": 1, "setup_cmd": "%s -m dst.selftest" % PY, "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
