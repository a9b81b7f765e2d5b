#!/usr/bin/env python3
"""finding.py <fixed|known> PROPERTY ID COMMIT|- REPLAY-FILE|- WHAT : records a genuine defect in known_findings.json."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
st, prop, fid, commit, replay, what = sys.argv[1:7]
f = json.load(open(f"{V}/known_findings.json"))
e = {"id": fid, "property": prop, "status": st, "what": what}
if commit != "-":
    e["commit"] = commit
    e["line"] = f"fixed: property={prop} {commit} {what}"
if replay != "-":
    r = json.load(open(replay))
    e["family"], e["case"] = r["family"], r["case"]
f["findings"] = [x for x in f["findings"] if x["id"] != fid] + [e]
json.dump(f, open(f"{V}/known_findings.json", "w"), indent=1)
