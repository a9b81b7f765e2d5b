#!/usr/bin/env python3
"""red.py ID FAMILY REGEX [N [SEED]]: finds a failing case matching REGEX among N survey cases and reduces its JSON greedily (at most 100 s)."""
import sys, os, json, re, time, copy, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from concurrent.futures import ThreadPoolExecutor
from vf import c3, pbt
ck = importlib.import_module("checks." + sys.argv[1]).CHECK
c3.init_scratch("red"); ck.setup()
f = [f for f in ck.families if f.name == sys.argv[2]][0]
want, n, seed = sys.argv[3], int((sys.argv + [600])[4]) if len(sys.argv) > 4 else 600, sys.argv[5] if len(sys.argv) > 5 else "1"
items = [pbt.gen_case(f, f"survey/{seed}/{f.name}/{i}") for i in range(n)]
cs = [x[0] for x in items if x[0] is not None]
ch = [cs[i:i + f.batch] for i in range(0, len(cs), f.batch)]
with ThreadPoolExecutor(8) as ex: res = [r for rs in ex.map(f.run, ch) for r in rs]
hits = [(c, r) for c, r in zip(cs, res) if r and re.search(want, r)]
print(len(hits), "hits of", len(cs))
if not hits: sys.exit()
c, r = min(hits, key=lambda h: len(json.dumps(h[0], default=repr)))
end = time.time() + 100


def bad(c):
    try:
        if hasattr(f, "valid") and not f.valid(c): return None
        x = f.run([c])[0]
        return x if x and re.search(want, x) else None
    except Exception:
        return None


def paths(x, p=()):
    if isinstance(x, list):
        for i in range(len(x)): yield p + (i,), "del"
    it = enumerate(x) if isinstance(x, list) else x.items() if isinstance(x, dict) else ()
    for k, v in it:
        if isinstance(v, int) and not isinstance(v, bool) and v: yield p + (k,), "int"
        if isinstance(v, bool) and v: yield p + (k,), "false"
        yield from paths(v, p + (k,))


def apply(c, p, how):
    c = copy.deepcopy(c)
    q = c
    for k in p[:-1]: q = q[k]
    if how == "del": del q[p[-1]]
    elif how == "false": q[p[-1]] = False
    else: q[p[-1]] = 0 if how == "int" else q[p[-1]] // 2
    return c


prog = True
while prog and time.time() < end:
    prog = False
    cand = []
    for p, how in paths(c):
        try: cand.append(apply(c, p, how))
        except Exception: pass
    for i in range(0, len(cand), 8):
        if time.time() > end: break
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(bad, cand[i:i + 8]))
        for d, x in zip(cand[i:i + 8], rs):
            if x:
                c, r, prog = d, x, True
                break
        if prog: break
print(json.dumps(c, default=repr)[:2500])
print(r[:1500])
