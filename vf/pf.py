"""Families whose cases are pieces of a C3 program that must print given lines."""
from vf import pbt, c3

SAFE = [("-O0",), ("-O1",), ("-O2",), ("-O3",), ("-Os",)]
LEVELS = [("-O0",), ("-O1",), ("-O3",), ("-O0", "--safe=no"), ("-O2", "--safe=no")]
# pr(text, value): one line. idl and friends hide a value from the optimiser.
PRE = """module t;
extern fn int printf(char* f, ...);
fn void pl(char* w, long v) @noinline { printf("%s=%lld\\n", w, v); }
fn void pw(char* w, uint128 v) @noinline { printf("%s=%llx:%llx\\n", w, (ulong)(v >> 64), (ulong)v); }
fn void pd(char* w, double v) @noinline { printf("%s=%a\\n", w, v); }
fn void pz(char* w, void* p, usz n) @noinline { printf("%s=", w); for (usz i = 0; i < n; i++) printf("%02x", (int)((char*)p)[i]); printf("\\n"); }
fn void ps(char* w, char[] s) @noinline { printf("%s=%.*s\\n", w, (int)s.len, s.ptr); }
fn void say(char* w) @noinline { printf("%s\\n", w); }
long gzero;
fn long idl(long v) @noinline { return v + *(&gzero); }
fn double idd(double v) @noinline { return gzero ? v + 1 : v; }
fn uint128 idw(uint128 v) @noinline { return v + (uint128)gzero; }
"""


def u128(v):
    v &= (1 << 128) - 1
    return f"{v >> 64:x}:{v & (1 << 64) - 1:x}"


class PF(pbt.Family):
    pre = PRE
    std = False
    levels = LEVELS
    batch = 24
    main = "fn int main()"

    def emit(self, k, c):
        """-> (declarations, statements, expected lines)"""
        raise NotImplementedError

    def level(self, c):
        return self.levels[c["level"]]

    def render(self, c):
        d, b, w = self.emit(0, c)
        return {"declarations": d, "statements": b, "expected": w[:60], "level": self.level(c)}

    def run(self, cases):
        res = [None] * len(cases)
        for lv in sorted({self.level(c) for c in cases}):
            ix = [i for i, c in enumerate(cases) if self.level(c) == lv]
            for i, r in zip(ix, c3.batch_program([cases[i] for i in ix], self.make, self.check, flags=lv, std=self.std)):
                res[i] = r and f"{' '.join(lv)}: {r}"
        return res

    def make(self, cs):
        T, m = [self.pre], []
        for k, c in enumerate(cs):
            d, b, w = self.emit(k, c)
            T.append(f"{d}\nfn void m{k}() @noinline {{\n{b}\n}}")
            m.append(f'\tprintf("#{k}\\n"); m{k}();')
        T.append(self.main + "\n{\n" + "\n".join(m) + '\n\tprintf("#end\\n"); return 0;\n}\n')
        return "\n".join(T)

    def check(self, cs, out):
        got, cur = [[] for _ in cs], None
        end = False
        for l in out.split("\n"):
            if l == "#end":
                end = True
            elif l.startswith("#") and l[1:].isdigit() and int(l[1:]) < len(cs):
                cur = int(l[1:])
            elif l and cur is not None:
                got[cur].append(l)
        if not end:
            raise c3.Fail("the program ended early")
        return [self.compare(c, self.emit(k, c)[2], got[k]) for k, c in enumerate(cs)]

    def compare(self, c, want, got):
        if want == got:
            return None
        for i, w in enumerate(want):
            if i >= len(got):
                return f"line {i}: expected {w}, got nothing"
            if w != got[i]:
                return f"line {i}: expected {w}, got {got[i]}"
        return f"line {len(want)}: unexpected {got[len(want)]}"
