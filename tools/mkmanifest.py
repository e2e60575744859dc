#!/usr/bin/env python3
"""Writes MANIFEST.json from the property functions that exist."""
import json, os, sys
V = "/verif"
sys.path[:0] = [V, V + "/gen"]
import props
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in P:
    i = p["id"]
    if i in props.PROPS:
        n = NOTE.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s thorough" % i,
            technique=n.get("technique", "TLA+ state machine of the caller's memory; TLC trace validation of recorded library calls"),
            level=n.get("level", "model_checking"),
            level_note=n.get("note", "Every recorded call is decided by TLC against the specification; assurance is bounded by the enumerated flags, layouts, shapes and sampled small-integer data; trusts the driver's recording of memory.")))
    else:
        na.append(dict(property=i, reason=NOTE.get(i, {}).get("na", "no check built yet")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
  notes="No hooks: a call's linearization point is its return, and the caller's memory is the abstract state. Genuine defects were repaired in /repo by fix: commits (see known_findings.jsonl).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
