"""C01: integer operators compute exact two's complement results at run time."""
from vf import pbt, c3, ex

PRE = """
extern fn int printf(char* f, ...);
fn void out(uint128 v) @noinline { printf("%llx:%llx\\n", (ulong)(v >> 64), (ulong)v); }
"""
LEVELS = [("-O0",), ("-O1",), ("-O3",), ("-O0", "--safe=no"), ("-O5",), ("-Os",)]


def show(v, t):
    v = ex.wrap(v, t) & ((1 << 128) - 1)
    return f"{v >> 64:x}:{v & ((1 << 64) - 1):x}"


def arg(v, t):
    return ex.lit(v, t)


def outs(x, t):
    """Prints a value of type t with sign extension."""
    if t == "bool":
        return f"out((uint128)(int)({x}));"
    return f"out((uint128)({'int128' if ex.signed(t) else 'uint128'})({x}));"


class Exprs(pbt.Family):
    """Expression trees over parameters, evaluated for several argument tuples."""
    name = "expressions"
    batch = 40
    quick, thorough = 12000, 250000

    def gen(self, s):
        names = ["a", "b", "c", "d"][:s.int(2, 4)]
        vars = {n: s.choice(ex.TYPES) for n in names}
        if s.bool(1, 4):
            t0 = s.choice(ex.TYPES)
            vars = {n: t0 for n in names}
        g = ex.Gen(s, vars)
        t = s.choice(ex.TYPES + ["bool"])
        e = ex.tame(g.expr(t, s.int(1, 4)), g.varof)
        tuples = []
        for _ in range(6):
            env = {n: s.inum(ex.bits(vt), ex.signed(vt)) for n, vt in vars.items()}
            try:
                ex.ev(e, env)
                tuples.append([env[n] for n in names])
            except ex.Undefined:
                pass
        return {"vars": vars, "e": e, "t": ex.typeof(e), "in": tuples, "level": s.draw(len(LEVELS) - 1), "slack": s.draw(255), "how": s.draw(3)}

    def nontrivial(self, c):
        return bool(c["in"]) and c["e"][0] not in ("v", "c")

    def labels(self, c):
        def ops(e):
            if isinstance(e, list):
                if e[0] in ("b", "u", "k", "l"):
                    yield f"{e[1]} {ex.typeof(e) if e[0] != 'k' else ex.typeof(e[2])}"
                if e[0] == "x":
                    yield f"cast {ex.typeof(e[2])}->{e[1]}"
                for x in e[1:]:
                    yield from ops(x)
        return set(ops(c["e"])) | {" ".join(LEVELS[c["level"]])}

    def render(self, c):
        return {"expr": self.etext(c), "types": c["vars"], "inputs": c["in"], "level": LEVELS[c["level"]]}

    def etext(self, c, name=lambda n: n):
        return ex.text(c["e"], name, [c["slack"] >> i & 1 for i in range(8)])

    def run(self, cases):
        res = [None] * len(cases)
        for lv in range(len(LEVELS)):
            ix = [i for i, c in enumerate(cases) if c["level"] == lv]
            if ix:
                for i, r in zip(ix, c3.batch_program([cases[i] for i in ix], self.make, self.check, LEVELS[lv])):
                    res[i] = r
        return res

    def make(self, cs):
        out = ["module t;", PRE]
        calls = []
        for i, c in enumerate(cs):
            ps = ", ".join(f"{ex.NAME[t]} {n}" for n, t in c["vars"].items())
            t = c["t"]
            how = c["how"]
            if how == 0 or t == "bool":
                body = outs(self.etext(c), t)
            elif how == 1:      # through globals
                for n, vt in c["vars"].items():
                    out.append(f"{ex.NAME[vt]} g{i}_{n};")
                body = "".join(f" g{i}_{n} = {n};" for n in c["vars"]) + " " + outs(self.etext(c, lambda n: f"g{i}_{n}"), t)
            elif how == 2:      # into a local of the type, from array elements / members
                out.append(f"struct St{i} {{ " + " ".join(f"{ex.NAME[vt]} {n};" for n, vt in c["vars"].items()) + " }")
                body = f"St{i} z = {{ " + ", ".join(c["vars"]) + f" }}; St{i}* p = &z; {ex.NAME[t]} r = " + self.etext(c, lambda n: f"p.{n}") + "; " + outs("r", t)
            else:               # returned from a function
                out.append(f"fn {ex.NAME[t]} e{i}({ps}) @noinline => {self.etext(c)};")
                body = outs(f"e{i}({', '.join(c['vars'])})", t)
            out.append(f"fn void f{i}({ps}) @noinline {{ {body} }}")
            calls.append(f"\tprintf(\"#{i}\\n\");")
            for tup in c["in"]:
                calls.append(f"\tf{i}({', '.join(arg(v, vt) for v, vt in zip(tup, c['vars'].values()))});")
        return "\n".join(out) + "\nfn int main()\n{\n" + "\n".join(calls) + "\n\treturn 0;\n}\n"

    def check(self, cs, out):
        got = split(out, len(cs))
        res = []
        for c, g in zip(cs, got):
            w = [show(ex.ev(c["e"], dict(zip(c["vars"], tup))), c["t"]) for tup in c["in"]]
            res.append(None if g == w else f"{self.etext(c)} with {c['vars']} at {LEVELS[c['level']]}: " + "; ".join(
                f"{tup}: got {a}, expected {b}" for tup, a, b in zip(c["in"], g + ["nothing"] * 9, w) if a != b))
        return res


def split(out, n):
    got = [[] for _ in range(n)]
    cur = None
    for l in out.split("\n"):
        if l.startswith("#"):
            cur = int(l[1:])
        elif l and cur is not None:
            got[cur].append(l)
    return got


class Stmts(Exprs):
    """Compound assignments, increments and decrements on locals, globals, members, elements and through pointers."""
    name = "assignments"
    quick, thorough = 6000, 120000
    PLACES = ["local", "global", "member", "element", "pointer"]

    def gen(self, s):
        vars = {n: s.choice(ex.TYPES) for n in "abcde"}
        places = {n: s.choice(self.PLACES) for n in vars}
        env0 = {n: s.inum(ex.bits(t), ex.signed(t)) for n, t in vars.items()}
        env = dict(env0)
        st = []
        for _ in range(s.int(1, 10)):
            n = s.choice("abcde")
            t = vars[n]
            k = s.draw(7)
            g = ex.Gen(s, vars)
            if k == 0:
                x = [s.choice(["++", "--"]), n, s.draw(1)]
            elif k == 1:
                x = [s.choice(["++", "--"]), n, s.draw(1), "v"]     # its value is printed
            elif k == 2:
                x = ["=", n, ex.tame(g.expr(t, 2), g.varof)]
            elif k <= 4:
                x = [s.choice(["<<=", ">>="]), n, ["c", s.draw(ex.bits(t) - 1), "i32"] if s.bool() else g.leaf(s.choice(ex.TYPES))]
            else:
                x = [s.choice(["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="]), n, ex.tame(g.expr(t, s.draw(2)), g.varof)]
            if x[0] in ("/=", "%=") and x[2][0] == "c" and x[2][1] in (0, -1):
                continue
            e2 = dict(env)
            try:
                self.step(x, e2, vars, [])
            except ex.Undefined:
                continue
            env = e2
            st.append(x)
        return {"vars": vars, "places": places, "env": env0, "st": st, "level": s.draw(len(LEVELS) - 1)}

    def step(self, x, env, vars, log):
        n = x[1]
        t = vars[n]
        if x[0] in ("++", "--"):
            old = env[n]
            env[n] = ex.wrap(old + (1 if x[0] == "++" else -1), t)
            if len(x) > 3:
                log.append(show(env[n] if x[2] else old, t))
        elif x[0] == "=":
            env[n] = ex.wrap(ex.ev(x[2], env), t)
        elif x[0] in ("<<=", ">>="):
            # the narrow type is what is shifted; a count at or above its width is out of range
            b = ex.ev(x[2], env)
            if b < 0 or b >= ex.bits(t):
                raise ex.Undefined
            env[n] = ex.wrap(ex.binop(x[0][:2], env[n], b, t if ex.bits(t) >= 32 else t[0] + "32"), t)
        else:
            r = ex.ev(x[2], env)
            p = t
            env[n] = ex.wrap(ex.binop(x[0][0], env[n], ex.wrap(r, p), p), t)

    def nontrivial(self, c):
        return len(c["st"]) > 0

    def labels(self, c):
        return {f"{x[0]} {c['vars'][x[1]]}" for x in c["st"]} | {c["places"][x[1]] for x in c["st"]}

    def render(self, c):
        return {"program": self.make([c]), "level": LEVELS[c["level"]]}

    def make(self, cs):
        out = ["module t;", PRE]
        calls = []
        for i, c in enumerate(cs):
            vs, pl = c["vars"], c["places"]
            nm, decl = {}, []
            ms = [n for n in vs if pl[n] == "member"]
            if ms:
                out.append(f"struct St{i} {{ " + " ".join(f"{ex.NAME[vs[n]]} {n};" for n in ms) + " }")
                decl.append(f"St{i} z;")
            for n, t in vs.items():
                T = ex.NAME[t]
                if pl[n] == "global":
                    out.append(f"{T} g{i}_{n};")
                    nm[n] = f"g{i}_{n}"
                elif pl[n] == "member": nm[n] = f"z.{n}"
                elif pl[n] == "element":
                    decl.append(f"{T}[3] l_{n};")
                    nm[n] = f"l_{n}[1]"
                elif pl[n] == "pointer":
                    decl.append(f"{T} l_{n}; {T}* p_{n} = &l_{n};")
                    nm[n] = f"(*p_{n})"
                else:
                    decl.append(f"{T} l_{n};")
                    nm[n] = f"l_{n}"
            body = decl + [f"{nm[n]} = {n};" for n in vs]
            for x in c["st"]:
                l = nm[x[1]]
                if x[0] in ("++", "--"):
                    e = f"{x[0]}{l}" if x[2] else f"{l}{x[0]}"
                    body.append(outs(e, vs[x[1]]) if len(x) > 3 else e + ";")
                else:
                    body.append(f"{l} {x[0]} {ex.text(x[2], lambda n: nm[n])};")
            body += [outs(nm[n], t) for n, t in vs.items()]
            ps = ", ".join(f"{ex.NAME[t]} {n}" for n, t in vs.items())
            out.append(f"fn void f{i}({ps}) @noinline\n{{\n\t" + "\n\t".join(body) + "\n}")
            calls.append(f"\tprintf(\"#{i}\\n\"); f{i}({', '.join(arg(c['env'][n], t) for n, t in vs.items())});")
        return "\n".join(out) + "\nfn int main()\n{\n" + "\n".join(calls) + "\n\treturn 0;\n}\n"

    def check(self, cs, out):
        res = []
        for c, g in zip(cs, split(out, len(cs))):
            env, log = dict(c["env"]), []
            for x in c["st"]:
                self.step(x, env, c["vars"], log)
            w = log + [show(env[n], t) for n, t in c["vars"].items()]
            res.append(None if g == w else f"at {LEVELS[c['level']]} got {g}, expected {w}\n" + self.make([c])[:1500])
        return res


class Compares(pbt.Family):
    """Comparisons of a constant with a run-time value, of any two integer types, written inside macros."""
    name = "constant-comparisons"
    batch = 60
    quick, thorough = 2400, 30000
    run = Exprs.run

    def gen(self, s):
        t, k = s.choice(ex.TYPES), s.choice(ex.TYPES)
        b = ex.bits(k)
        c = s.choice([0, 1, 2, -1, -2, -128, 127, 255, 1 << 31, -(1 << 31), (1 << 32) - 1]) if s.bool() else s.inum(b, ex.signed(k))
        c = ex.wrap(c, k)
        vals = [ex.wrap(x, t) for x in (c, c - 1, c + 1, 0, -1)] + [s.inum(ex.bits(t), ex.signed(t)) for _ in range(4)]
        return {"t": t, "k": k, "c": c, "op": s.choice(["<", "<=", ">", ">=", "==", "!="]), "left": s.bool(), "in": vals, "level": s.draw(len(LEVELS) - 1)}

    def nontrivial(self, c): return True

    def labels(self, c): return {f"{c['k']} constant with {c['t']}", c["op"], " ".join(LEVELS[c["level"]])}

    def etext(self, c):
        l = ex.lit(c["c"], c["k"])
        return f"({l}) {c['op']} x" if c["left"] else f"x {c['op']} ({l})"

    def render(self, c): return {"expr": self.etext(c), "x": c["t"], "inputs": c["in"], "level": LEVELS[c["level"]]}

    def make(self, cs):
        out = ["module t;", PRE]
        calls = []
        for i, c in enumerate(cs):
            out.append(f"macro bool m{i}(x) => {self.etext(c)};")
            out.append(f"fn bool f{i}({ex.NAME[c['t']]} x) @noinline => m{i}(x);")
            calls.append(f'\tprintf("#{i}\\n");')
            calls += [f'\tprintf("%d\\n", (int)f{i}({arg(v, c["t"])}));' for v in c["in"]]
        return "\n".join(out) + "\nfn int main()\n{\n" + "\n".join(calls) + "\n\treturn 0;\n}\n"

    def check(self, cs, out):
        res = []
        for c, g in zip(cs, split(out, len(cs))):
            w = [str(int(ex.compare(c["op"], *((c["c"], v) if c["left"] else (v, c["c"]))))) for v in c["in"]]
            res.append(None if g == w else f"{self.etext(c)} with x of {c['t']} at {LEVELS[c['level']]}: " + "; ".join(
                f"{v}: got {a}, expected {b}" for v, a, b in zip(c["in"], g + ["nothing"] * 9, w) if a != b))
        return res


class C01(pbt.Check):
    id = "C01"
    rule = "expressions: the tree has an operator and at least one argument tuple for which it is defined; assignments: at least one statement; distinct by tree, types and values"
    assumptions = ["division by zero, MIN / -1 and shift counts outside [0, width) are not generated (their traps belong to C10)",
                   "arguments reach the tested functions through @noinline calls"]
    families = [Exprs(), Stmts(), Compares()]


CHECK = C01()
