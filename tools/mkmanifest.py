#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist (checks/<ID>.py) and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py"):
        c = importlib.import_module(f"checks.{i}").CHECK
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c.technique, "level": c.level,
                       "level_note": c.note or "Generated-input search against an explicit oracle: it shows the property on every case explored, not on all inputs. " + " ".join(x if x.endswith(".") else x + "." for x in c.assumptions)})
    else:
        na.append({"property": i, "reason": "Within reach of generated-input search, but no check was built for it in the time available (see DESIGN.md), so nothing is claimed."})
json.dump({"version": 1, "setup_cmd": "python3 vf/build.py dbg", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo. Each check rebuilds c3c from /repo's working tree into .cache (content-addressed) and uses /repo/lib as the standard library."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
