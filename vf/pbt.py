"""A small property-based testing engine: choice-sequence generation and shrinking,
batched execution, parallel workers, distribution counters, replay files and evidence.

Every random decision of a case is drawn from a `Src`; a case is a pure function of its
choice sequence, so a failing case is shrunk by editing that sequence (as in Hypothesis).
"""
import hashlib, json, math, multiprocessing as mp, os, random, sys, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")


class Stop(Exception):
    """The replayed choice sequence ran out or the case grew too large."""


class Src:
    MAX = 60000

    def __init__(self, seed=None, prefix=None):
        self.rnd = random.Random(seed) if prefix is None else None
        self.prefix = prefix
        self.ch = []

    def draw(self, n):
        """An integer in [0, n]; 0 is the simplest."""
        if n <= 0:
            return 0
        i = len(self.ch)
        if i >= self.MAX:
            raise Stop()
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v > n:
                v = v % (n + 1)
        else:
            v = self.rnd.randint(0, n)
        self.ch.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks to False."""
        return self.draw(den - 1) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; shrinks to the first."""
        tot = sum(w for w, _ in pairs)
        x = self.draw(tot - 1)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        return pairs[-1][1]

    def bits(self, n):
        v = 0
        while n > 0:
            k = min(n, 32)
            v = (v << k) | self.draw((1 << k) - 1)
            n -= k
        return v

    def list(self, lo, hi, f):
        """Length by 'continue' coins so that deleting choices deletes elements."""
        out = []
        for _ in range(lo):
            out.append(f())
        extra = self.draw(hi - lo) if hi > lo else 0
        for _ in range(extra):
            out.append(f())
        return out

    def inum(self, bits, signed):
        """An integer of the given type, weighted to boundaries."""
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        k = self.draw(9)
        if k <= 2:
            v = self.int(0, 20) - (8 if signed else 0)
        elif k <= 4:
            v = self.choice([0, 1, hi, lo, hi - 1, lo + 1, -1 if signed else hi, hi // 2, hi // 2 + 1, lo // 2])
        elif k == 5:
            v = (1 << self.draw(bits - 1)) + self.int(0, 2) - 1
            if signed and self.draw(1):
                v = -v
        elif k == 6:
            v = self.bits(self.int(1, bits))
        else:
            v = self.bits(bits)
        v &= (1 << bits) - 1
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return v

    def bytes(self, lo, hi, mode=None):
        n = self.int(lo, hi)
        m = self.draw(4) if mode is None else mode
        if m == 0:
            return bytes(97 + self.draw(3) for _ in range(n))
        if m == 1:
            return bytes(self.choice([0, 255, 127, 128, 1, 10, 32]) for _ in range(n))
        if m == 2:
            return bytes(32 + self.draw(94) for _ in range(n))
        return bytes(self.draw(255) for _ in range(n))


def digest(obj):
    return hashlib.blake2b(json.dumps(obj, sort_keys=True, default=repr).encode(), digest_size=8).digest()


class Family:
    """One generator + oracle. Subclass or pass functions.

    gen(src) -> case (JSON-able); run(cases) -> [None | str] ; labels(case) -> iterable of str ;
    nontrivial(case) -> bool ; render(case) -> JSON-able text for people."""
    name = "main"
    batch = 50
    quick = 1000
    thorough = 10000
    shrink_evals = 400
    confirm = 3         # times a failing case must fail again
    shrinkable = True

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def gen(self, s):
        raise NotImplementedError

    def run(self, cases):
        raise NotImplementedError

    def labels(self, case):
        return ()

    def valid(self, case):
        """Whether a structurally reduced case is one the generator could have made."""
        return True

    def nontrivial(self, case):
        return True

    def render(self, case):
        return case


class Check:
    id = "X00"
    level = "exploration"
    technique = "property-based testing (generated programs and inputs, explicit oracle, shrunk failures)"
    note = ""
    rule = ""
    assumptions = []
    families = ()
    time_cap = {"quick": 600, "thorough": 3600}

    def setup(self):
        pass

    def teardown(self):
        pass


def gen_case(fam, seed=None, prefix=None):
    s = Src(seed, prefix)
    try:
        return fam.gen(s), s.ch
    except Stop:
        return None, s.ch


_CTX = {}


def _work(job):
    fi, bi, n, seed, deadline = job
    fam = _CTX["families"][fi]
    if time.time() > deadline or _CTX["stop"].value:
        return (fi, 0, Counter(), [], [], [])
    cases, chs = [], []
    for j in range(n):
        c, ch = gen_case(fam, f"{seed}/{fam.name}/{bi}/{j}")
        if c is not None:
            cases.append(c)
            chs.append(ch)
    try:
        res = fam.run(cases) if cases else []
    except Exception:
        return (fi, 0, Counter({"harness-error": 1}), [], [("error", traceback.format_exc(), bi)], [])
    labels, keys, fails, samples = Counter(), [], [], []
    for j, (c, r) in enumerate(zip(cases, res)):
        for l in fam.labels(c):
            labels[f"{fam.name}:{l}"] += 1
        if fam.nontrivial(c):
            keys.append(digest(c))
        if r is not None:
            fails.append(("fail", c, chs[j], r, cases, chs))
    if cases and bi < 1:
        nt = [c for c in cases if fam.nontrivial(c)] or cases
        samples = nt[:2]
    if fails:
        _CTX["stop"].value = 1
    return (fi, len(cases), labels, keys, fails[:1], samples)


def run1(fam, case):
    return fam.run([case])[0]


def shrink(fam, ch, msg):
    """Shrinks a failing choice sequence, evaluating candidates in batches."""
    best, bmsg, evals = list(ch), msg, 0
    bcase = gen_case(fam, prefix=best)[0]
    t0 = time.time()

    def attempt(cands):
        """Index of the first failing candidate, or None."""
        nonlocal best, bmsg, bcase, evals
        todo, seen = [], set()
        for c in cands:
            case, used = gen_case(fam, prefix=c)
            if case is None or (len(used), used) >= (len(best), best):
                continue
            k = digest(case)
            if k in seen:
                continue
            seen.add(k)
            todo.append((used, case))
        for i in range(0, len(todo), 8):
            if evals > fam.shrink_evals or time.time() - t0 > 90:
                return False
            part = todo[i:i + 8]
            evals += len(part)
            for (used, case), r in zip(part, fam.run([c for _, c in part])):
                if r is not None and run1(fam, case) is not None:
                    best, bmsg, bcase = used, r, case
                    return True
        return False

    improved = True
    while improved and evals <= fam.shrink_evals and time.time() - t0 < 90:
        improved = False
        k = max(1, len(best) // 2)
        while k >= 1:
            cands = [best[:i] + best[i + k:] for i in range(0, len(best), k)]
            cands.reverse()
            while attempt(cands[:60]):
                improved = True
                cands = [best[:i] + best[i + k:] for i in range(0, len(best), k)][::-1]
            k //= 2
        i = len(best) - 1
        while i >= 0 and evals <= fam.shrink_evals:
            if i < len(best) and best[i]:
                v = best[i]
                opts = sorted({0, 1, v // 2, v - 1, v >> 8} - {v})
                # lowering a value, and lowering a length while deleting what followed
                cands = [best[:i] + [o] + best[i + 1:] for o in opts if o < v]
                cands += [best[:i] + [v - 1] + best[i + 1:j] + best[j + 1:] for j in range(i + 1, min(i + 6, len(best)))]
                if attempt(cands):
                    improved = True
                    continue
            i -= 1
    return best, bcase, bmsg


def kind_of(msg):
    """Compile trouble, run-time trouble and wrong results are different failures."""
    m = str(msg)
    if "refused or failed" in m[:200]:
        import re
        e = re.search(r"Error: (.*)|(died of signal \d+)|(Violated assert.*)", m)
        return "refused " + re.sub(r"'[^']*'|\d+", "", e.group(0) if e else "")
    return "died" if "the compiled program" in m[:60] else "wrong"


def reduce_case(fam, case, msg, secs=90):
    """Structural shrinking: fam.reduce(case) yields smaller candidate cases; the first that fails alike is taken."""
    from concurrent.futures import ThreadPoolExecutor
    t0, kind = time.time(), kind_of(msg)

    def bad(c):
        if time.time() - t0 > secs:
            return None
        try:
            if not fam.valid(c):
                return None
            r = fam.run([c])[0]
        except Exception:
            return None
        return r if r is not None and kind_of(r) == kind else None

    with ThreadPoolExecutor(8) as ex:
        skip, clean = 0, False
        while time.time() - t0 < secs:
            cands = fam.reduce(case)
            pos, hit = 0, None
            for _ in zip(range(skip), cands):
                pos += 1
            while time.time() - t0 < secs:
                part = [c for _, c in zip(range(16), cands)]
                if not part:
                    break
                hit = next(((j, c, r) for j, (c, r) in enumerate(zip(part, ex.map(bad, part))) if r is not None), None)
                if hit:
                    break
                pos += len(part)
            if hit:
                skip, clean = pos + hit[0], False
                case, msg = hit[1:]
            elif skip == 0 or clean:
                break
            else:
                skip, clean = 0, False
                if not hit:
                    clean = False
    return case, msg


def _ddmin(fam, cases):
    """Shrinks a failing batch (a failure needing several cases together)."""
    cur = list(cases)
    n = 2
    while len(cur) > 1 and n <= len(cur):
        size = math.ceil(len(cur) / n)
        for i in range(0, len(cur), size):
            t = cur[:i] + cur[i + size:]
            if t and any(r is not None for r in fam.run(t)):
                cur, n = t, max(n - 1, 2)
                break
        else:
            if n == len(cur):
                break
            n = min(len(cur), n * 2)
    return cur


def load_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def write_replay(pid, n, obj):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{n}.json")
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, default=repr)
    return path


def main(check, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = [a.split("=", 1)[1] for a in argv if a.startswith("--family=")]
    scale = float(next((a.split("=", 1)[1] for a in argv if a.startswith("--scale=")), "1"))
    t0 = time.time()
    from . import c3, build
    c3.init_scratch(check.id)
    try:
        try:
            violation_setup = check.setup()
        except build.BuildError as e:
            print(f"ERROR building the tree under test: {e}")
            return 2
        except c3.HarnessBroken as e:
            path = write_replay(check.id, 0, {"property": check.id, "kind": "harness does not compile or start", "log": str(e)})
            print(str(e)[-3000:])
            evidence(check, tier, seed, t0, 1, 0, Counter(), ["harness: " + str(e)[:500]], 1)
            print(f"VIOLATION property={check.id} replay={path}")
            return 1
        replay = next((a.split("=", 1)[1] for a in argv if a.startswith("--replay=")), None)
        fams = [f for f in check.families if not only or f.name in only]
        if replay:
            return do_replay(check, fams, replay)
        return explore(check, fams, tier, seed, scale, t0)
    finally:
        check.teardown()
        c3.drop_scratch()


def do_replay(check, fams, path):
    with open(path) as f:
        o = json.load(f)
    fam = next(f for f in fams if f.name == o.get("family"))
    cases = o["batch"] if o.get("batch") else [o["case"]]
    res = fam.run(cases)
    for c, r in zip(cases, res):
        if r is not None:
            print(r)
            print(f"VIOLATION property={check.id} replay={path}")
            return 1
    print("replay: the property held on this case")
    return 0


def evidence(check, tier, seed, t0, evals, distinct, labels, samples, violations, extra=None):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"evaluations": evals, "distinct_nontrivial": distinct, "rule": check.rule, "samples": samples,
           "labels": dict(sorted(labels.items()))}
    if extra:
        cov.update(extra)
    with open(os.path.join(d, f"{check.id}.json"), "w") as f:
        json.dump({"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
                   "assumptions": list(check.assumptions), "wall_s": round(time.time() - t0, 2),
                   "violations": violations}, f, indent=1, default=repr)


def explore(check, fams, tier, seed, scale, t0):
    findings = load_findings(check.id)
    byname = {f.name: f for f in fams}
    violations = []
    # regressions: repaired and recorded defects
    nknown = 0
    for e in findings:
        fam = byname.get(e.get("family"))
        if fam is None:
            continue
        nknown += 1
        r = run1(fam, e["case"])
        if r is not None:
            if e["status"] == "known":
                print(f"KNOWN-FINDING: property={check.id} {e['id']}: {e['what']}")
            else:
                violations.append((fam, e["case"], None, f"repaired defect {e['id']} is back: {r}", None))
    cap = check.time_cap[tier]
    jobs = []
    for fi, f in enumerate(fams):
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * scale))
        b = 0
        while n > 0:
            jobs.append((fi, b, min(f.batch, n), seed, t0 + cap))
            n -= f.batch
            b += 1
    # interleave the families so that early stops treat them alike
    jobs.sort(key=lambda j: (j[1] / max(1, math.ceil((fams[j[0]].quick if tier == "quick" else fams[j[0]].thorough) / fams[j[0]].batch)), j[0]))
    labels, keys, samples, evals, errors = Counter(), set(), [], nknown, []
    perfam = Counter()
    _CTX["families"] = fams
    _CTX["stop"] = mp.Value("i", 0)
    nproc = min(int(os.environ.get("VF_JOBS", "8")), max(1, len(jobs)))
    if not violations:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc) as pool:
            for fi, n, lb, ks, fl, sm in pool.imap_unordered(_work, jobs):
                evals += n
                perfam[fams[fi].name] += n
                labels.update(lb)
                keys.update(ks)
                for c in sm:
                    if len(samples) < 12:
                        samples.append({"family": fams[fi].name, "case": fams[fi].render(c)})
                for f in fl:
                    if f[0] == "error":
                        errors.append(f[1])
                    else:
                        violations.append((fams[fi],) + f[1:])
    capped = time.time() - t0 > cap
    code = 0
    reported = 0
    flaky = []
    seenfam = set()
    for n, v in enumerate(violations):
        fam = v[0]
        if fam.name in seenfam:
            continue
        if len(v) == 5:
            fam, case, _, msg, _ = v
            path = write_replay(check.id, n, {"property": check.id, "family": fam.name, "message": msg, "case": case, "readable": fam.render(case)})
        else:
            fam, case, ch, msg, bcases, bchs = v
            ok = sum(run1(fam, case) is not None for _ in range(fam.confirm))
            if ok == fam.confirm:
                if hasattr(fam, "reduce"):
                    case, msg = reduce_case(fam, case, msg)
                elif fam.shrinkable:
                    _, case, msg = shrink(fam, ch, msg)
                path = write_replay(check.id, n, {"property": check.id, "family": fam.name, "message": msg, "case": case,
                                                  "readable": fam.render(case), "seed": seed})
            else:
                again = [any(r is not None for r in fam.run(bcases)) for _ in range(fam.confirm)]
                if ok == 0 and not all(again):
                    flaky.append({"family": fam.name, "message": msg, "alone": ok, "batch": sum(again)})
                    if not any(again):
                        continue
                    # seen at least twice in the same batch: real, if not deterministic
                    small = bcases
                else:
                    small = _ddmin(fam, bcases) if ok == 0 else [case]
                msg = next((r for r in fam.run(small) if r is not None), msg)
                path = write_replay(check.id, n, {"property": check.id, "family": fam.name, "message": msg, "batch": small,
                                                  "readable": [fam.render(c) for c in small][:5], "seed": seed})
        seenfam.add(fam.name)
        print(f"--- {check.id}/{fam.name}: {str(msg)[:3000]}")
        print(f"VIOLATION property={check.id} replay={path}")
        reported += 1
        code = 1
    for e in errors[:2]:
        print(e)
    if errors and not code:
        code = 2
    extra = {"per_family": dict(perfam), "regressions_run": nknown}
    if capped:
        extra["note"] = "the time cap was reached before all planned cases were run"
    if flaky:
        extra["unconfirmed"] = flaky
    evidence(check, tier, seed, t0, evals, len(keys), labels, samples, reported, extra)
    print(f"{check.id} {tier} seed={seed}: {evals} cases, {len(keys)} distinct non-trivial, {reported} violations, {time.time() - t0:.1f}s")
    return code
