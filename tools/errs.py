"""errs.py ID FAMILY [N]: distinct messages of failing cases, one example each (short)."""
import sys, re, importlib
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vf import pbt, c3
id, fam, n = sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 300
chk = importlib.import_module("checks." + id).CHECK
f = next(x for x in chk.families if x.name == fam)
c3.init_scratch("errs")
from concurrent.futures import ThreadPoolExecutor
cs = [f.gen(pbt.Src(i)) for i in range(n)]
bs = [cs[i:i + f.batch] for i in range(0, n, f.batch)]
with ThreadPoolExecutor(8) as ex: rs = sum(ex.map(f.run, bs), [])
seen = {}
for c, r in zip(cs, rs):
    if not r: continue
    m = re.search(r"\n *(\d+: [^\n]*)\n[ \t^~]*\n\([^)]*\) (Error: [^\n]*)", r)
    k = re.sub(r"\d+", "#", m.group(2) if m else r[:80])
    seen.setdefault(k, []).append((len(str(c)), str(c)[:300], (m.group(1)[:160] + " | " + m.group(2)) if m else r[:300]))
print(f"{sum(map(len, seen.values()))}/{n} fail")
for k, v in sorted(seen.items(), key=lambda x: -len(x[1]))[:8]:
    _, c, t = min(v)
    print(f"[{len(v)}] {t[:420]}\n    {c}")
c3.drop_scratch()
if len(sys.argv) > 4:
    import time
    c3.init_scratch("errs")
    for k, v in sorted(seen.items(), key=lambda x: -len(x[1]))[:int(sys.argv[4])]:
        c = next(c for c, r in zip(cs, rs) if r and str(c)[:300] == min(v)[1])
        end = time.time() + 60
        red = getattr(f, "reduce", None)
        while red and time.time() < end:
            cand, prog = [q for q in red(c) if f.valid(q)][:400], False
            for i in range(0, len(cand), 8):
                with ThreadPoolExecutor(8) as ex: rr = list(ex.map(lambda q: f.run([q])[0], cand[i:i + 8]))
                hit = next((q for q, r in zip(cand[i:i + 8], rr) if r), None)
                if hit is not None: c, prog = hit, True; break
                if time.time() > end: break
            if not prog: break
        r = f.run([c])[0]
        print("REDUCED", str(c)[:900], "\n =>", (r or "gone")[-700:])
        x = f.render(c)
        print(str(x.get("declarations", x) if isinstance(x, dict) else x)[:1500], "\n", x.get("statements", "") if isinstance(x, dict) else "", "\n", x.get("expected", "") if isinstance(x, dict) else "")
    c3.drop_scratch()
