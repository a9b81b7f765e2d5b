#!/usr/bin/env python3
"""survey.py ID [CASES [FAMILY]]: runs cases without shrinking; prints failures grouped by label (for development)."""
import sys, os, importlib, json
from collections import Counter, defaultdict
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import c3, lib, pbt
ck = importlib.import_module(f"checks.{sys.argv[1]}").CHECK
n = int(sys.argv[2]) if len(sys.argv) > 2 else 2000
c3.init_scratch("survey")
try:
    ck.setup()
    for f in ck.families:
        if len(sys.argv) > 3 and f.name != sys.argv[3]:
            continue
        cases = [pbt.gen_case(f, f"survey/{os.environ.get('SEED', 1)}/{f.name}/{i}")[0] for i in range(n)]
        cases = [c for c in cases if c is not None]
        ch = [cases[i:i + f.batch] for i in range(0, len(cases), f.batch)]
        with ThreadPoolExecutor(8) as ex:
            res = [r for rs in ex.map(f.run, ch) for r in rs]
        tot, bad, eg = Counter(), Counter(), defaultdict(list)
        for c, r in zip(cases, res):
            l = ",".join(list(f.labels(c))[:1]) or "-"
            tot[l] += 1
            if r is not None:
                bad[l] += 1
                eg[l].append((len(json.dumps(c, default=repr)), c, r))
        print(f"== {f.name}: {len(cases)} cases, {sum(bad.values())} fail")
        for l in [l for l in tot if bad[l]][:int(os.environ.get('MAXG', 5))]:
            if bad[l]:
                print(f"-- {l}: {bad[l]}/{tot[l]}")
                for _, c, r in sorted(eg[l], key=lambda t: t[0])[:int(os.environ.get('EG', 2))]:
                    print("   ", json.dumps(c, default=repr)[:300], "\n      =>", "\n".join(x for x in r.split("\n") if not x.startswith("  in "))[-int(os.environ.get('TAIL', 400)):] if os.environ.get('TAIL') else r[:400])
finally:
    c3.drop_scratch()
