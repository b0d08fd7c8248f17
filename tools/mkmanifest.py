#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
INFO = {}
NOTE = ("TLC explores the TLA+ model {m} exhaustively within the bounds printed by the run; the code (compiled from /repo's working tree) is bound to it by "
        "validating every event recorded from generated and adversarial executions against the same specification. Trust: TLC, the harness's recording, and that behaviour outside the explored bounds is uniform.")
MODEL = dict(A01="Cosim", A02="Cosim", A04="Cosim", A05="Cosim", A06="Cosim", A07="Cosim", A08="Cosim", A09="Cosim", A10="Cosim", A03="StopSim", R01="Pacing", R02="Metrics", T01="Pool",
             **getattr(checks, "MODELS", {}))
out = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [], "not_applicable": [],
       "notes": "TLA+ checked with TLC. No hooks in /repo: harnesses in harness/ compile /repo/src directly. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m = MODEL[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py " + i,
                              "technique": "TLA+ model %s checked with TLC; trace validation of the real code against it" % m,
                              "level": "model_checking", "level_note": NOTE.format(m=m)})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks", [x["property"] for x in out["not_applicable"]])
