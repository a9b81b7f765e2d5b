"""C03: structured programs run with the language's control-flow semantics."""
from vf import pbt, c3, prog

LEVELS = [("-O0",), ("-O1",), ("-O2",), ("-O3",), ("-Os",), ("-O0", "--safe=no")]


class Programs(pbt.Family):
    name = "programs"
    batch = 24
    quick, thorough = 2400, 60000
    opts = dict(opt=False)
    want_run = ()

    def gen(self, s):
        p = prog.Gen(s, **self.opts).program()
        p["level"] = s.draw(len(LEVELS) - 1)
        if prog.expected(p)[0] is None:
            p = {"globals": {"g0": 1}, "arrays": {}, "funcs": [{"name": "f0", "params": [], "ret": "int", "body": [["return", ["c", 1]]]}], "calls": [["f0", []]], "level": 0}
        return p

    def nontrivial(self, c):
        w, ran = prog.expected(c)
        return len(w) >= 6 and len(ran) >= 4

    def labels(self, c):
        return prog.stats(c) | {" ".join(LEVELS[c["level"]])}

    def render(self, c):
        return {"program": prog.source([c]), "level": LEVELS[c["level"]]}

    def run(self, cases):
        res = [None] * len(cases)
        for lv in sorted({c["level"] for c in cases}):
            ix = [i for i, c in enumerate(cases) if c["level"] == lv]
            for i, r in zip(ix, c3.batch_program([cases[i] for i in ix], prog.source, self.check, LEVELS[lv])):
                res[i] = r
        return res

    def valid(self, case):
        return prog.scoped(case) and prog.expected(case)[0] is not None

    def reduce(self, case):
        for q in prog.reduce(case):
            yield {**q, "level": case["level"]}
        if case["level"]: yield {**case, "level": 0}

    def check(self, cs, out):
        got = [[] for _ in cs]
        cur = None
        for l in out.split("\n"):
            if l.startswith("#"): cur = int(l[1:])
            elif l: got[cur].append(l)
        res = []
        for c, g in zip(cs, got):
            w = prog.expected(c)[0]
            if g == w:
                res.append(None)
                continue
            j = next((j for j, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
            res.append(f"at {LEVELS[c['level']]}, output line {j}: got {g[j:j + 3]}, expected {w[j:j + 3]}\n" + prog.source([c])[600:4000])
        return res


class C03(pbt.Check):
    id = "C03"
    rule = "the program prints at least 6 lines and runs at least 4 kinds of statement; distinct by program and optimisation level"
    assumptions = ["every generated loop ends by construction; programs needing more than 2500 interpreter steps are replaced by a trivial one"]
    families = [Programs()]


CHECK = C03()
