#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json: run `python3 bin/props.py` after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from harnesses import PROPERTY_HARNESS
PROPS, NA = [], {}
TECH = {}
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                  "anchors": {"files": files,
                              "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                              "mechanism": [{"name": a, "where": b} for a, b in mech],
                              "observe_at": list(observe), "hook_needed": None}})
    assert len(title) <= 80, (id, len(title))
    TECH[id] = (technique, note)
    if na: NA[id] = na
from props_data import define
define(P)
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in PROPERTY_HARNESS and i not in NA:
        t, n = TECH[i]
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/build.py all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is the public API, an injected object, or link-time interposition in the harness binary. /repo carries fix: commits only."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
