"""Families that drive a library harness (a C3 program compiled by the c3c under test)."""
from . import pbt, c3

EXE = {}
# with -g0 LLVM moves the store "local = parameter" before the zeroing of the local under asan; with debug info it does not
ASAN = ("-O0", "-g", "--sanitize=address")
FAST = ("-O1", "-g0")


class LibFamily(pbt.Family):
    harness = None
    batch = 60
    timeout = 30

    def text(self, c):
        raise NotImplementedError

    def want(self, c):
        raise NotImplementedError

    def run(self, cases):
        out = c3.serve(EXE[self.harness], [self.text(c) for c in cases], timeout=self.timeout)
        return [self.judge(c, *o) for c, o in zip(cases, out)]

    def judge(self, c, lines, died):
        if died:
            return died
        return self.compare(c, " ".join(" ".join(lines).split()))

    def compare(self, c, g):
        w = " ".join(self.want(c).split())
        return None if g == w else diff(c, g, w)

    def labels(self, c):
        return [c["op"]] if isinstance(c, dict) and "op" in c else ()


def diff(c, g, w):
    gt, wt = g.split(), w.split()
    for i, (a, b) in enumerate(zip(gt, wt)):
        if a != b:
            return f"item {i}: got {a[:200]}, expected {b[:200]} (got [{' '.join(gt[max(0, i - 3):i + 6])[:300]}] expected [{' '.join(wt[max(0, i - 3):i + 6])[:300]}])"
    return f"got {len(gt)} items, expected {len(wt)}: got ...[{' '.join(gt[-6:])[:300]}] expected ...[{' '.join(wt[-6:])[:300]}]"


class LibCheck(pbt.Check):
    technique = "property-based testing against a reference model (generated inputs and histories, shrunk failures)"
    flags = ASAN
    extra = {}

    def setup(self):
        for h in sorted({f.harness for f in self.families if getattr(f, "harness", None)}):
            EXE[h] = c3.harness(h, self.flags, self.extra.get(h, ()))


def hx(b):
    return "x" + (b if isinstance(b, str) else bytes(b).hex())
