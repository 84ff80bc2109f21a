#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json and /verif/bounds.json from the table below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
exec(open(os.path.join(root, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = "symbolic execution of the Go SSA of the real code + SMT (z3/cvc5), counterexamples replayed natively"
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: harnesses and stand-ins for the uncached OpenTelemetry modules come in through an overlay and a copy of go.mod (see DESIGN.md)."}
b = {}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh check " + i, "thorough_cmd": "./run.sh check " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", TECH), "level": "model_checking",
            "level_note": c["note"] + " Bounds: " + c["bounds"] + " " + TRUST})
        b[i] = c["bounds"]
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
json.dump(b, open(os.path.join(root, "bounds.json"), "w"), indent=1)
