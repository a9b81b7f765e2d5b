#!/usr/bin/env python3
"""mkbug.py FILE.py: FILE defines BUGS = {id: dict(property, file, old, new, needs, breaks, c3 | demo)}; writes seeded/ID. (Development tool.)
c3: a C3 program which must exit 0; it is compiled with the options in `opts`."""
import json, os, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = runpy.run_path(sys.argv[1])["BUGS"]
for i, b in B.items():
    if len(sys.argv) > 2 and i not in sys.argv[2:]: continue
    sd = f"{V}/seeded/{i}"; os.makedirs(sd, exist_ok=True)
    edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "init", "-q", t])
        for f in {e[0] for e in edits}:
            os.makedirs(os.path.dirname(f"{t}/{f}"), exist_ok=True)
            open(f"{t}/{f}", "w").write(open(f"/repo/{f}").read())
        subprocess.run("git add -A; git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=t)
        for f, o, n in edits:
            s = open(f"{t}/{f}").read()
            assert s.count(o) == 1, (i, f, s.count(o), o)
            open(f"{t}/{f}", "w").write(s.replace(o, n))
        d = subprocess.check_output(["git", "diff"], cwd=t).decode()
    open(f"{sd}/patch.diff", "w").write(d)
    if "c3" in b:
        open(f"{sd}/demo.c3", "w").write(b["c3"])
        open(f"{sd}/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not
D=$(cd "$(dirname "$0")" && pwd)
C3C="$PWD/_build/c3c"
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 3
"$C3C" compile "$D/demo.c3" {b.get('opts', '-O0')} -o "$T/demo" > "$T/log" 2>&1 || {{ cat "$T/log"; exit 2; }}
"$T/demo"
""")
    else:
        open(f"{sd}/demo.sh", "w").write(b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{sd}/meta.json", "w"), indent=1)
    print("wrote", i)
