"""Writes MANIFEST.json from the properties and the specification modules present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
import sys
sys.path.insert(0, H)
from sa import extra
NA = {
 "C37": "Global optimality of the vector found by the numerical optimiser is a statement about scipy's SLSQP iterates on a non-convex function; no static argument in reach bounds it.",
 "C38": "Minimality of the expected time over all strategies is an optimality theorem about the label-setting order of a work queue with run-time costs; the static family decides the single label update (C23) but not global optimality.",
 "C39": "Exact float round trips depend on rounding of run-time values printed with fixed precision; not decidable from the source without value bounds.",
}
TECH = {}
NOTE = {}
pend = {}
checks, na = [], []
for p in props:
    i = p["id"]
    has = os.path.exists(os.path.join(H, "spec", i.lower() + ".py")) or hasattr(extra, "rule_" + i)
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif has:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
            "technique": extra.TECH.get(i, "static analysis: gated value-graph (GVN) comparison of the code against a specification, with loop summarisation"),
            "level": "other",
            "level_note": extra.NOTE.get(i, "Decided from the source for all inputs: symbolic value graphs of the code and of a specification are normalised and compared; reals stand for floats, library calls are uninterpreted.")})
    else:
        na.append({"property": i, "reason": "No check built yet."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na, "hooks": []} if False else
          {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
