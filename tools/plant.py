#!/usr/bin/env python3
"""plant.py ID...: confirms planted bugs in scratch copies of /repo: the patch applies and builds, the stable tests pass
with it, and the demonstration exits 0 on the unchanged tree and nonzero with the patch. (Development tool.)"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
def names(x):
    if isinstance(x, dict):
        for k in ("passed", "stable", "tests", "pass"):
            if k in x: return set(x[k])
    return set(x)

def sh(cmd, cwd, t=900):
    try: p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, timeout=t)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return p.returncode, (p.stdout + p.stderr).decode(errors="replace")

def scratch(name):
    d = f"/tmp/sb/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"git -C /repo archive HEAD | tar -x -C {d} --one-top-level=repo; cp -a /opt/vp {d}/vp", "/")
    sh(f"sed -i 's#/repo#{d}/repo#g; s#/opt/vp#{d}/vp#g' {d}/vp/*.sh", "/")
    return d

def one(i):
    sd = f"{V}/seeded/{i}"
    d = scratch(i)
    r = d + "/repo"
    try:
        rc, o = sh(f"git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x && git apply {sd}/patch.diff", r)
        if rc: return f"{i}: patch does not apply: {o[:300]}"
        rc, o = sh(f"bash {d}/vp/test.sh {d}/out.json", "/")
        try: res = json.load(open(f"{d}/out.json"))
        except Exception as e: return f"{i}: no results {o[-500:]}"
        missing = names(BASE) - set(res["passed"])
        if missing: return f"{i}: tests broken: {sorted(missing)[:4]} of {len(missing)}; {o[-200:] if len(missing)>1000 else ''}"
        shutil.copytree(sd, d + "/demo", dirs_exist_ok=True)
        rc1, o1 = sh(f"bash {d}/demo/demo.sh", r, 300)
        rc0, o0 = sh(f"bash {d}/demo/demo.sh", "/repo", 300)
        ok = rc0 == 0 and rc1 != 0
        return f"{i}: {'OK' if ok else 'BAD'} clean={rc0} patched={rc1}" + ("" if ok else f"\n clean: {o0[-400:]}\n patched: {o1[-400:]}")
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, sys.argv[1:]): print(r, flush=True)
