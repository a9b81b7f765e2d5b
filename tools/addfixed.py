#!/usr/bin/env python3
"""addfixed.py: reads tuples (id, property, grep-in-/repo-log, what[, family, case]) as Python literals, one per line; records them as fixed findings."""
import json, subprocess, sys, ast, os
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
f = json.load(open(F))
for ln in sys.stdin:
    if not ln.strip():
        continue
    id, prop, grep, what, *rest = ast.literal_eval(ln)
    c = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "--fixed-strings", "--grep", grep, "-1"]).decode().strip()
    assert c, grep
    e = {"id": id, "property": prop, "status": "fixed", "what": what, "commit": c, "line": f"fixed: property={prop} {c} {what}"}
    if rest:
        e["family"], e["case"] = rest
    f["findings"] = [x for x in f["findings"] if x["id"] != id] + [e]
json.dump(f, open(F, "w"), indent=1)
