"""C08: layout of aggregates against gcc, and data crossing between the languages."""
import os
from vf import pbt, c3, abi

LEVELS = [("-O0",), ("-O1",), ("-O3",), ("-O0", "--safe=no")]
TPRE = "module t;\nextern fn int printf(char* f, ...);\nfn void o(char* w, int k, usz a) @noinline { printf(\"%s%d=%ld\\n\", w, k, (long)a); }\nfn void gwrap(char c, char e, int k) @noinline { if (c != 7 || e != 9) printf(\"C3 reads wrapper %d wrong\\n\", k); }\n" + abi.C3PRE
CPRE = """#include <stdio.h>
#include <stddef.h>
#include <string.h>
static void o(char* w, int k, size_t a) { printf("%s%d=%ld\\n", w, k, (long)a); }
"""


def paths(t):
    """Every member path, union members and anonymous ones included: [(path, type, member)]"""
    out = []

    def go(t, p, d):
        if isinstance(t, str):
            return
        if t[0] == "arr":
            k = f"{p}[{t[1] - 1}]"
            out.append(k)
            go(t[2], k, d)
            return
        for m in t[4]:
            q = p + (f".{m[1]}" if m[1] else "")
            if m[1]:
                out.append(q)
            go(m[0], q, d + 1)
    go(t, "", 0)
    return out[:24]


class Layout(pbt.Family):
    name = "layout"
    batch = 30
    quick, thorough = 2400, 60000

    def gen(self, s):
        g = abi.TypeGen(s, size=s.choice([4, 10, 24]))
        t = abi.rename(g.aggr(s.int(0, 3)), [0])
        vals = {}
        for p, l in abi.leaves(t):
            vals[p] = abi.gval(s, l)
        return {"t": t, "vals": vals, "level": s.draw(len(LEVELS) - 1)}

    def labels(self, c):
        t = c["t"]
        x = repr(t)
        r = [t[1], f"leaves:{min(9, len(abi.leaves(t, all=True)))}"]
        if "'struct', True" in x or "'union', True" in x: r.append("packed")
        if "''," in x: r.append("anonymous")
        if "'arr'" in x: r.append("array")
        return r + [" ".join(LEVELS[c["level"]])]

    def nontrivial(self, c):
        return len(abi.leaves(c["t"], all=True)) >= 2

    def render(self, c):
        e = abi.Emit("s")
        e.declare(c["t"])
        return {"c3": e.t, "level": LEVELS[c["level"]]}

    def run(self, cases):
        res = [None] * len(cases)
        for lv in sorted({c["level"] for c in cases}):
            ix = [i for i, c in enumerate(cases) if c["level"] == lv]
            for i, r in zip(ix, self.go([cases[i] for i in ix], LEVELS[lv])):
                res[i] = r
        return res

    def sources(self, cs):
        T, C, tm, cm = [TPRE], [CPRE], [], []
        for k, c in enumerate(cs):
            t, vals = c["t"], c["vals"]
            e = abi.Emit(f"k{k}")
            e.declare(t)
            C += e.c
            T += e.t
            ct, tt = e.ctype(t), e.ttype(t)
            T.append(f"struct Wr{k} {{ char c; {tt} s; char e; {tt}[2] t; }}\nWr{k} gw{k} = {{ 7, {abi.tinit(t, '', vals)}, 9, {{ [1] = {abi.tinit(t, '', vals)} }} }};")
            b = [f'o("size", {k}, {tt}.sizeof); o("align", {k}, {tt}.alignof); o("rsize", {k}, $typeof(x).typeid.sizeof); o("stride", {k}, (usz)&y[1] - (usz)&y[0]);',
                 f'o("sizex", {k}, $sizeof(x)); o("la", {k}, (usz)&x % {tt}.alignof); o("ga", {k}, (usz)&g{k} % {tt}.alignof); o("ga2", {k}, (usz)&h{k} % {tt}.alignof);']
            d = [f'o("size", {k}, sizeof({ct})); o("align", {k}, _Alignof({ct})); o("rsize", {k}, sizeof({ct})); o("stride", {k}, sizeof({ct}));',
                 f'o("sizex", {k}, sizeof({ct})); o("la", {k}, 0); o("ga", {k}, 0); o("ga2", {k}, 0);']
            for j, p in enumerate(paths(t)):
                b.append(f'o("off{j}_", {k}, (usz)&x{p} - (usz)&x);')
                d.append(f'o("off{j}_", {k}, offsetof({ct}, {p[1:]}));')
                if not p.endswith("]") and "[" not in p:
                    b.append(f'o("coff{j}_", {k}, $offsetof(x{p})); o("ms{j}_", {k}, $sizeof(x{p}));')
                    d.append(f'o("coff{j}_", {k}, offsetof({ct}, {p[1:]})); o("ms{j}_", {k}, sizeof((({ct}*)0)->{p[1:]}));')
            ms = [m for m in t[4]]
            for j, m in enumerate(ms):
                if m[1]:
                    b.append(f'o("mo{j}_", {k}, {tt}.membersof[{j}].offsetof);')
                    d.append(f'o("mo{j}_", {k}, offsetof({ct}, {m[1]}));')
            lv = abi.leaves(t)
            T.append(f"{tt} g{k} = {abi.tinit(t, '', vals)};\n{tt} h{k};\n{tt}[3] ga{k} = {{ [1] = {abi.tinit(t, '', vals)} }};\n{tt}[2] gb{k} = {{ {abi.tinit(t, '', vals)}, {abi.tinit(t, '', vals)} }};\nconst {tt} KK{k} = {abi.tinit(t, '', vals)};\nextern fn int cchk{k}({tt}* p, int w); extern fn void cset{k}({tt}* p);")
            T.append(f"fn void tset{k}({tt}* p) @noinline {{ " + " ".join(f"p{p} = {abi.tval(vals[p], l)};" for p, l in lv) + " }")
            T.append(f"fn void tchk{k}({tt}* p, int w) @noinline {{ " + " ".join(f'if (!({abi.tsame("p" + p, vals[p], l)})) printf("C3 reads member {j} wrong in %d of case {k}\\n", w);' for j, (p, l) in enumerate(lv)) + " }")
            b += [f"cchk{k}(&g{k}, 1); cchk{k}(&ga{k}[1], 11); cchk{k}(&gb{k}[0], 12); cchk{k}(&gb{k}[1], 13); cchk{k}(&gw{k}.s, 14); cchk{k}(&gw{k}.t[1], 15); gwrap(gw{k}.c, gw{k}.e, {k}); {tt} z = KK{k}; cchk{k}(&z, 2); {tt} w = {abi.tinit(t, '', vals)}; cchk{k}(&w, 3); tset{k}(&x); cchk{k}(&x, 4); y[1] = {{}}; cset{k}(&y[1]); tchk{k}(&y[1], 5);",
                  f"y[0] = y[1]; tchk{k}(&y[0], 6); h{k} = y[0]; cchk{k}(&h{k}, 7); tchk{k}(&g{k}, 8);"]
            T.append(f"fn void m{k}() @noinline {{ {tt} x; {tt}[2] y; " + "\n ".join(b) + " }")
            C.append(f"void cset{k}({ct}* p) {{ memset(p, 0, sizeof *p); " + " ".join(f"p->{p[1:]} = {abi.cval(vals[p], l)};" for p, l in lv) + " }")
            C.append(f"int cchk{k}({ct}* p, int w) {{ " + " ".join(f'if (!({abi.csame("p->" + p[1:], vals[p], l)})) printf("C reads member {j} wrong in %d of case {k}\\n", w);' for j, (p, l) in enumerate(lv)) + " return 0; }")
            C.append(f"static void d{k}(void) {{ " + "\n ".join(d) + " }")
            tm.append(f'printf("#{k}\\n"); m{k}();')
            cm.append(f'printf("#{k}\\n"); d{k}();')
        T.append("fn void c3main() @export(\"c3main\") { " + " ".join(tm) + " }")
        C.append("void c3main(void);\nint main(void) { c3main(); printf(\"####\\n\"); " + " ".join(cm) + " return 0; }")
        return "\n".join(T), "\n".join(C)

    def go(self, cs, lv):
        try:
            return self.one(cs, lv)
        except c3.Fail as e:
            if len(cs) == 1:
                return [str(e)]
            h = len(cs) // 2
            return self.go(cs[:h], lv) + self.go(cs[h:], lv)

    def one(self, cs, lv):
        T, C = self.sources(cs)
        with c3.Tmp() as d:
            out = link(d, T, C, lv)
        mine, theirs = out.split("####\n") if "####" in out else (out, "")
        res = [None] * len(cs)
        a, b = split(mine, len(cs)), split(theirs, len(cs))
        for k in range(len(cs)):
            bad = [l for l in a[k] if " reads " in l]
            if bad:
                res[k] = f"{LEVELS[cs[k]['level']]}: {bad[0]}"
                continue
            for x, y in zip(a[k], b[k]):
                if x != y:
                    res[k] = f"{LEVELS[cs[k]['level']]}: C3 gives {x}, gcc {y}"
                    break
            if res[k] is None and len(a[k]) != len(b[k]):
                res[k] = f"{len(a[k])} lines of {len(b[k])}"
        return res


def link(d, T, C, lv, cc=("gcc", "-O1"), run=True):
    open(f"{d}/t.c3", "w").write(T)
    open(f"{d}/c.c", "w").write(C)
    r = c3.sh([c3.c3c(), "compile-only", "--use-stdlib=no", "--threads", "1", "--ansi=no", *lv, "--obj-out", f"{d}/o", f"{d}/t.c3"], cwd=d)
    if r.code:
        raise c3.Fail(f"c3c {' '.join(lv)} refused or failed on a valid program ({r.how()}):\n{r.text[-1200:]}")
    x = c3.sh([*cc, "-w", "-Wno-psabi", "-c", f"{d}/c.c", "-o", f"{d}/c.o"], cwd=d)
    if x.code:
        raise AssertionError("the C side does not compile: " + x.text[:1500])
    x = c3.sh(["gcc", f"{d}/c.o", *[f"{d}/o/{f}" for f in os.listdir(f"{d}/o")], "-o", f"{d}/p", "-lm"], cwd=d)
    if x.code:
        raise c3.Fail("linking failed: " + x.text[:1500])
    r = c3.sh([f"{d}/p"], cwd=d, timeout=20)
    if r.code:
        raise c3.Fail(f"the program {r.how()}: {r.text[-600:]}")
    return r.out.decode("utf-8", "replace")


def split(out, n):
    r, cur = [[] for _ in range(n)], None
    for l in out.split("\n"):
        if l.startswith("#"): cur = int(l[1:])
        elif l and cur is not None: r[cur].append(l)
    return r


class C08(pbt.Check):
    id = "C08"
    technique = "property-based testing: random aggregate declarations, differential against gcc's layout, and data written in one language read in the other"
    rule = "the aggregate has at least two scalar leaves; distinct by declaration, values and optimisation level"
    assumptions = ["gcc's packed and aligned attributes are the C equivalents of @packed and @align"]
    families = [Layout()]


CHECK = C08()
