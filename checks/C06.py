"""C06: calls between C3 and C on x86-64 Linux: arguments and results by value in both directions."""
from vf import pbt, c3, abi
from checks.C08 import LEVELS, link, split

TPRE = """module t;
extern fn int printf(char* f, ...);
extern fn void report(int k, char* who, int arg, int leaf);
""" + abi.C3PRE
CPRE = """#include <stdio.h>
#include <string.h>
#include <stdarg.h>
typedef struct { void* p; unsigned long n; } Slice;
void report(int k, char* who, int arg, int leaf) { printf("%d %s: argument %d leaf %d is wrong\\n", k, who, arg, leaf); }
"""
VAR = ["int", "long", "double", "void*", "uint", "ulong", "usz", "int128", "uint128", "float", "char", "short", "ichar", "ushort", "bool"]
PROMO = {"float": "double", "char": "int", "short": "int", "ichar": "int", "ushort": "int", "bool": "int"}


class Calls(pbt.Family):
    name = "calls"
    batch = 20
    quick, thorough = 4800, 80000
    packed = True

    def value(self, s, t):
        return {p: abi.gval(s, l) for p, l in abi.leaves(t)}

    def gen(self, s):
        pool = []
        for _ in range(s.int(1, 3)):
            g = abi.TypeGen(s, packed=self.packed, aligned=s.bool(1, 3), size=s.choice([2, 2, 3, 3, 5, 8, 20]))
            if s.bool(1, 6):
                g.leaves = ["float", "double"]
            pool.append(abi.rename(g.aggr(s.int(0, 2)), [0]))
        # Shapes at the edges of the classification.
        st = lambda packed, *ts: ["s", "struct", packed, 0, [[t, f"m{k + 1}", 0, False] for k, t in enumerate(ts)], 0]
        edges = [st(False, "long", "long"), st(True, "char", "long"), st(False, "long", "double"), st(False, "double", "int"), st(False, "float", "float"),
                 st(False, "float", "float", "float"), st(True, "short", "float", "double"), st(False, "char", "short", "int", "void*"), st(False, "long", "long", "char")]
        for _ in range(s.int(0, 2)):
            pool.append(s.choice(edges))
        lg = abi.TypeGen(s)
        pick = lambda: s.choice(pool) if s.bool() else lg.leaf()
        args = []
        # Often use the registers up first, so that what follows sits at the boundary between registers and stack.
        full = s.weighted([(4, 0), (2, 1), (2, 2), (1, 3)])
        if full & 1:
            args += [s.choice(["long", "int", "void*"]) for _ in range(s.int(3, 6))]
        if full & 2:
            args += [s.choice(["double", "float"]) for _ in range(s.int(6, 8))]
        for _ in range(s.int(1, 4) if full else s.weighted([(5, s.int(0, 4)), (3, s.int(0, 9)), (1, s.int(0, 14))])):
            args.append(pick())
        ret = "void" if s.bool(1, 8) else pick()
        var = []
        if args and s.bool(1, 4):
            for _ in range(s.int(1, 6)):
                var.append(s.choice(VAR) if s.bool(2, 3) else s.choice(pool))
        # gcc and LLVM 18 disagree on integers of 128 bits that do not get registers (clang's calls do as well).
        ok = lambda t, j: "long" if t in ("int128", "uint128") and j > 1 else t
        args = [ok(t, j) for j, t in enumerate(args)]
        var = [ok(t, j + len(args)) for j, t in enumerate(var)]
        return {"args": args, "ret": ret, "var": var, "vals": [self.value(s, t) for t in args + var],
                "rval": {} if ret == "void" else self.value(s, ret), "level": s.draw(len(LEVELS) - 1),
                # clang itself loses half of a union of doubles and floats, so unions are only checked against gcc.
                "cc": s.draw(1) if "union" not in repr(args + var + [ret]) else 0}

    def labels(self, c):
        n = sum(1 for t in c["args"] if not isinstance(t, str))
        return [f"params:{min(9, len(c['args']))}", f"aggregates:{min(5, n)}", "ret:" + (c["ret"] if isinstance(c["ret"], str) else c["ret"][1]),
                "variadic" if c["var"] else "fixed", ["gcc", "clang"][c["cc"]], " ".join(LEVELS[c["level"]])]

    def nontrivial(self, c):
        return len(c["args"]) >= 1 and any(not isinstance(t, str) for t in c["args"] + c["var"] + [c["ret"]])

    def render(self, c):
        return {"c3": self.sources([c])[0].split("\n", 6)[-1][:3000], "level": LEVELS[c["level"]]}

    def run(self, cases):
        res = [None] * len(cases)
        for lv in sorted({(c["level"], c["cc"]) for c in cases}):
            ix = [i for i, c in enumerate(cases) if (c["level"], c["cc"]) == lv]
            for i, r in zip(ix, self.go([cases[i] for i in ix], lv)):
                res[i] = r
        return res

    def go(self, cs, lv):
        try:
            T, C = self.sources(cs)
            with c3.Tmp() as d:
                out = link(d, T, C, LEVELS[lv[0]], (["gcc", "-O1"], ["clang", "-O1"])[lv[1]])
            r = split(out, len(cs))
            return [None if x == ["done"] else f"{LEVELS[lv[0]]}, {['gcc', 'clang'][lv[1]]}: {(x or ['no output'])[0]}" for x in r]
        except c3.Fail as e:
            if len(cs) == 1:
                return [str(e)]
            h = len(cs) // 2
            return self.go(cs[:h], lv) + self.go(cs[h:], lv)

    def sources(self, cs):
        T, C, tm = [TPRE], [CPRE], []
        for k, c in enumerate(cs):
            e = abi.Emit(f"k{k}")
            every = c["args"] + c["var"] + ([] if c["ret"] == "void" else [c["ret"]])
            for t in every:
                e.declare(t)
            C += e.c
            T += e.t
            na = len(c["args"])
            ct = lambda t: "void" if t == "void" else e.ctype(t)
            tt = lambda t: "void" if t == "void" else e.ttype(t)
            P = lambda x, p: x + p
            # Makers and checkers.
            for j, t in list(enumerate(every)):
                vals = c["rval"] if j == len(c["args"] + c["var"]) else c["vals"][j]
                lv = abi.leaves(t)
                if isinstance(t, str):
                    continue
                C.append(f"static {ct(t)} cm{k}_{j}(void) {{ {ct(t)} x; memset(&x, 0, sizeof x); " + " ".join(f"x{p} = {abi.cval(vals[p], l)};" for p, l in lv) + " return x; }")
                T.append(f"fn {tt(t)} tm{k}_{j}() @noinline {{ {tt(t)} x; " + " ".join(f"x{p} = {abi.tval(vals[p], l)};" for p, l in lv) + " return x; }")
            allv = c["vals"] + [c["rval"]]
            cmk = lambda j: abi.cval(allv[j][""], every[j]) if isinstance(every[j], str) else f"cm{k}_{j}()"
            tmk = lambda j: abi.tval(allv[j][""], every[j]) if isinstance(every[j], str) else f"tm{k}_{j}()"

            def cchk(j, x, who, argno, prom=None):
                t = every[j]
                if isinstance(t, str):
                    v = abi.cval(allv[j][""], t)
                    return f'if (!({x} == {v})) report({k}, "{who}", {argno}, 0);'
                return " ".join(f'if (!({abi.csame(x + p, allv[j][p], l)})) report({k}, "{who}", {argno}, {n});' for n, (p, l) in enumerate(abi.leaves(t)))

            def tchk(j, x, who, argno):
                t = every[j]
                if isinstance(t, str):
                    return f'if (!({x} == {tmk(j)})) report({k}, "{who}", {argno}, 0);'
                return " ".join(f'if (!({abi.tsame(x + p, allv[j][p], l)})) report({k}, "{who}", {argno}, {n});' for n, (p, l) in enumerate(abi.leaves(t)))
            R = len(every) - 1 if c["ret"] != "void" else None
            cps = ", ".join(f"{ct(t)} a{j}" for j, t in enumerate(c["args"])) or "void"
            tps = ", ".join(f"{tt(t)} a{j}" for j, t in enumerate(c["args"]))
            cargs = ", ".join(cmk(j) for j in range(na))
            targs = ", ".join(tmk(j) for j in range(na))
            cret = f"return {cmk(R)};" if R is not None else ""
            tret = f"return {tmk(R)};" if R is not None else ""
            # C callee, C3 callee.
            C.append(f"{ct(c['ret'])} cf{k}({cps}) {{ " + " ".join(cchk(j, f"a{j}", "the C function called from C3", j) for j in range(na)) + f" {cret} }}")
            T.append(f"extern fn {tt(c['ret'])} cf{k}({tps});")
            T.append(f"fn {tt(c['ret'])} tf{k}({tps}) @export(\"tf{k}\") @noinline {{ " + " ".join(tchk(j, f"a{j}", "the C3 function called from C", j) for j in range(na)) + f" {tret} }}")
            T.append(f"alias Fp{k} = fn {tt(c['ret'])}({tps});")
            C.append(f"{ct(c['ret'])} tf{k}({cps});")
            # C calls C3: directly and through a pointer handed over.
            C.append(f"typedef {ct(c['ret'])} (*P{k})({cps});\nvoid* cptr{k}(void) {{ return (void*)cf{k}; }}")
            T.append(f"extern fn void* cptr{k}();\nextern fn void ccall{k}(void* p);\n")
            cc = []
            for how in (f"tf{k}", f"((P{k})p)"):
                if R is None:
                    cc.append(f"{how}({cargs});")
                else:
                    cc.append(f"{{ {ct(c['ret'])} r = {how}({cargs}); " + cchk(R, "r", "the result given to C", -1) + " }")
            C.append(f"void ccall{k}(void* p) {{ " + " ".join(cc) + " }")
            b = []
            for how in (f"cf{k}", f"((Fp{k})cptr{k}())"):
                if R is None:
                    b.append(f"{how}({targs});")
                else:
                    b.append(f"{{ {tt(c['ret'])} r = {how}({targs}); " + tchk(R, "r", "the result given to C3", -1) + " }")
            b.append(f"ccall{k}((void*)(Fp{k})&tf{k});")
            # C3 through its own pointer.
            b.append(f"Fp{k} fp = &tf{k};" + (f" fp({targs});" if R is None else f" {{ {tt(c['ret'])} r = fp({targs}); " + tchk(R, "r", "the result of C3 from C3", -1) + " }"))
            if c["var"]:
                va = []
                for q, t in enumerate(c["var"]):
                    j = na + q
                    pt = PROMO.get(t) if isinstance(t, str) else None
                    cty = abi.LEAF[pt][0] if pt else ct(t)
                    va.append(f"{{ {cty} v = va_arg(ap, {cty}); " + cchk(j, "v", "the variadic C function", j) + " }")
                C.append(f"{ct(c['ret'])} cv{k}({cps}, ...) {{ va_list ap; va_start(ap, a{na - 1}); " + " ".join(cchk(j, f"a{j}", "the variadic C function", j) for j in range(na)) + " ".join(va) + f" va_end(ap); {cret} }}")
                T.append(f"extern fn {tt(c['ret'])} cv{k}({tps}, ...);")
                vargs = ", ".join([targs] + [tmk(na + q) for q in range(len(c["var"]))])
                b.append(f"cv{k}({vargs});" if R is None else f"{{ {tt(c['ret'])} r = cv{k}({vargs}); " + tchk(R, "r", "the result of the variadic function", -1) + " }")
            T.append(f"fn void m{k}() @noinline {{ " + "\n\t".join(b) + " }")
            tm.append(f'printf("#{k}\\n"); m{k}(); printf("done\\n");')
        T.append("fn void c3main() @export(\"c3main\") { " + " ".join(tm) + " }")
        C.append("void c3main(void);\nint main(void) { c3main(); return 0; }")
        return "\n".join(T), "\n".join(C)


class C06(pbt.Check):
    id = "C06"
    technique = "property-based testing: random signatures over scalars and aggregates, calls between C3 and gcc/clang code in both directions, every argument and result leaf compared with its known value"
    rule = "at least one argument and one aggregate in the signature; distinct by signature, values, C compiler and optimisation level"
    assumptions = ["x86-64 Linux; gcc 13 and clang 18 are the C compilers"]
    families = [Calls()]


CHECK = C06()
