"""C02: compile-time evaluation agrees with run-time evaluation and with the mathematical definition."""
import math, struct
from vf import pbt, c3, ex
from checks.C01 import PRE, show, outs, split

PRE2 = PRE + """
fn void outd(double v) @noinline { printf("%llx\\n", *(ulong*)&v); }
fn void outf(float v) @noinline { printf("%x\\n", *(uint*)&v); }
"""


def const_ok(e):
    """Comparisons of unsigned values with zero or negative constants are refused outside macros."""
    if not isinstance(e, list) or e[0] in ("v", "c"):
        return True
    if e[0] == "k":
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if not ex.typeof(x) == "bool" and not ex.signed(ex.typeof(x)) and ex.ev(y, {}) <= 0 and e[1] not in ("==", "!="):
                return False
            if not ex.typeof(x) == "bool" and not ex.signed(ex.typeof(x)) and ex.ev(y, {}) < 0:
                return False
    return all(const_ok(x) for x in e[1:] if isinstance(x, list))


def fits(e):
    """A constant that has to change its value in an implicit conversion is refused."""
    if not isinstance(e, list) or e[0] in ("v", "c"):
        return True
    if e[0] == "b" and e[1] not in ("<<", ">>"):
        if any(ex.wrap(ex.ev(x, {}), e[4]) != ex.ev(x, {}) for x in e[2:4]):
            return False
    return all(fits(x) for x in e[1:] if isinstance(x, list))


def subst(e, env):
    if e[0] == "v":
        return ["c", env[e[1]], e[2]]
    return [subst(x, env) if isinstance(x, list) else x for x in e]


class Ints(pbt.Family):
    name = "integer-constants"
    batch = 40
    quick, thorough = 9000, 200000
    HOW = ["const", "local-const", "ct-var", "assert", "macro", "init", "arg"]

    def gen(self, s):
        vars = {n: s.choice(ex.TYPES) for n in "abcd"}
        if s.bool(1, 3):
            t0 = s.choice(ex.TYPES)
            vars = {n: t0 for n in vars}
        g = ex.Gen(s, vars)
        t = s.choice(ex.TYPES + ["bool"])
        e = g.expr(t, s.int(1, 4))
        t = ex.typeof(e)
        env = {n: s.inum(ex.bits(vt), ex.signed(vt)) for n, vt in vars.items()}
        try:
            self.total(e, env)
            if not fits(subst(e, env)):
                raise ex.Undefined
        except ex.Undefined:
            return {"vars": vars, "env": env, "e": ["v", "a", vars["a"]], "how": "const"}
        c = subst(e, env)
        how = s.choice(self.HOW)
        if how != "macro" and not const_ok(c):
            how = "macro"
        return {"vars": vars, "env": env, "e": e, "how": how}

    def total(self, e, env):
        """Every subexpression has a defined value, not only those that would be reached."""
        if e[0] in ("v", "c"):
            return
        for x in e[1:]:
            if isinstance(x, list):
                self.total(x, env)
        ex.ev(e, env)

    def nontrivial(self, c):
        return c["e"][0] not in ("v", "c")

    def labels(self, c):
        def ops(e):
            if isinstance(e, list):
                if e[0] in ("b", "u", "k", "l"):
                    yield f"{e[1]} {ex.typeof(e) if e[0] != 'k' else ex.typeof(e[2])}"
                if e[0] == "x":
                    yield f"cast {ex.typeof(e[2])}->{e[1]}"
                for x in e[1:]:
                    yield from ops(x)
        return set(ops(c["e"])) | {c["how"]}

    def render(self, c):
        return {"constant": ex.text(subst(c["e"], c["env"])), "how": c["how"]}

    def run(self, cases):
        return c3.batch_program(cases, self.make, self.check, ("-O0",))

    def make(self, cs):
        out, calls = ["module t;", PRE], []
        for i, c in enumerate(cs):
            e, env = c["e"], c["env"]
            t = ex.typeof(e)
            T = ex.NAME[t]
            k = ex.text(subst(e, env))
            how = c["how"]
            calls.append(f"\tprintf(\"#{i}\\n\");")
            if how == "const":
                out.append(f"const {T} K{i} = {k};")
                calls.append("\t" + outs(f"K{i}", t))
            elif how == "local-const":
                calls.append(f"\t{{ const {T} L = {k}; " + outs("L", t) + " }")
            elif how == "ct-var":
                calls.append(f"\t{{ var $x = {k}; " + outs("$x", t) + " }")
            elif how == "assert":
                v = ex.ev(e, env)
                calls.append(f"\t{{ $assert ({k}) == {ex.lit(v, t)}; " + outs(ex.lit(v, t), t) + " }")
            elif how == "macro":
                out.append(f"macro m{i}() => {k};")
                calls.append("\t" + outs(f"m{i}()", t))
            elif how == "init":
                out.append(f"{T}[2] g{i} = {{ [1] = {k} }};")
                calls.append("\t" + outs(f"g{i}[1]", t))
            else:
                out.append(f"fn {T} id{i}({T} x) @noinline => x;")
                calls.append("\t" + outs(f"id{i}({k})", t))
            ps = ", ".join(f"{ex.NAME[vt]} {n}" for n, vt in c["vars"].items())
            out.append(f"fn {T} r{i}({ps}) @noinline => {ex.text(e)};")
            calls.append("\t" + outs(f"r{i}(" + ", ".join(ex.lit(env[n], vt) for n, vt in c["vars"].items()) + ")", t))
        return "\n".join(out) + "\nfn int main()\n{\n" + "\n".join(calls) + "\n\treturn 0;\n}\n"

    def check(self, cs, out):
        res = []
        for c, g in zip(cs, split(out, len(cs))):
            w = show(ex.ev(c["e"], c["env"]), ex.typeof(c["e"]))
            res.append(None if g == [w, w] else f"{ex.text(subst(c['e'], c['env']))} ({c['how']}): at compile time / at run time {g}, expected {w}")
        return res


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def int_to(v, t):
    """Correctly rounded integer to float/double."""
    p = 53 if t == "f64" else 24
    n = abs(v).bit_length() - p
    if n > 0:
        q, r = abs(v) >> n, abs(v) & ((1 << n) - 1)
        h = 1 << (n - 1)
        q += r > h or (r == h and q & 1)
        v = (q << n) * (1 if v >= 0 else -1)
    return float(v)


FT = {"f32": "float", "f64": "double"}


class Floats(pbt.Family):
    """Constant floating point expressions: each operation rounds to its type."""
    name = "float-constants"
    batch = 40
    quick, thorough = 5000, 100000

    def val(self, s, t):
        k = s.draw(6)
        if k == 0: v = float(s.int(-9, 9))
        elif k == 1: v = s.int(-1000, 1000) / 8
        elif k == 2: v = s.choice([0.1, 0.2, 0.3, 1 / 3, 1e10, 1e-10, 16777216.0, 16777217.0, 3.4e38, 1.2e-38, 9007199254740993.0, 0.5, 2.5, -0.75])
        elif k == 3: v = s.bits(53) / (1 << s.int(0, 60))
        else: v = (s.bits(40) - (1 << 39)) * 10.0 ** s.int(-12, 4)
        return f32(v) if t == "f32" else v

    def tree(self, s, t, d):
        if d <= 0 or s.bool(1, 6):
            if s.bool(1, 4):
                it = s.choice(ex.TYPES)
                return ["if", t, ["c", s.inum(ex.bits(it), ex.signed(it)), it]]
            v = self.val(s, t)
            return ["n", t, v.hex()]
        k = s.draw(7)
        if k <= 4:
            return ["b", t, s.choice("+-*/%"), self.tree(s, t, d - 1), self.tree(s, t, d - 1)]
        if k == 5:
            return ["neg", t, self.tree(s, t, d - 1)]
        if k == 6:
            o = s.choice(["f32", "f64"])
            return ["ff", t, self.tree(s, o, d - 1)]
        return ["mix", "f64", s.choice("+-*/"), ["n", "f32", self.val(s, "f32").hex()], self.tree(s, "f64", d - 1)] if t == "f64" else ["ff", t, self.tree(s, "f64", d - 1)]

    def ev(self, e):
        k, t = e[0], e[1]
        if k == "n": v = float.fromhex(e[2])
        elif k == "if": v = int_to(e[2][1], t)
        elif k == "neg": v = -self.ev(e[2])
        elif k == "ff":
            v = self.ev(e[2])
        else:
            a, b = self.ev(e[3]), self.ev(e[4])
            if e[2] in "/%" and b == 0:
                raise ex.Undefined
            v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "%": lambda: math.fmod(a, b)}[e[2]]()
        try:
            v = f32(v) if t == "f32" else v
        except OverflowError:
            raise ex.Undefined
        if not math.isfinite(v):
            raise ex.Undefined
        return v

    def gen(self, s):
        t = s.choice(["f32", "f64"])
        e = self.tree(s, t, s.int(1, 4))
        kind = s.choice(["value", "value", "cmp", "int"])
        c = {"e": e, "kind": kind, "t": t, "how": s.choice(["const", "local-const", "ct-var", "macro", "init", "arg"])}
        try:
            v = self.ev(e)
            if kind == "cmp":
                c["e2"] = self.tree(s, t, 2) if s.bool(2, 3) else ["n", t, v.hex()]
                c["op"] = s.choice(ex.CMP)
                self.ev(c["e2"])
            if kind == "int":
                c["it"] = s.choice(ex.TYPES)
                if ex.wrap(int(v), c["it"]) != int(v):
                    c["kind"] = "value"
        except (ex.Undefined, OverflowError):
            c.update(kind="value", e=["n", t, "0x1p0"])
        return c

    def nontrivial(self, c):
        return c["e"][0] != "n" or c["kind"] != "value"

    def labels(self, c):
        def ops(e):
            yield e[0] if e[0] not in ("b", "mix") else e[2] + " " + e[1]
            for x in e[2:]:
                if isinstance(x, list):
                    yield from ops(x)
        return set(ops(c["e"])) | {c["how"], c["kind"]}

    def text(self, e, names=None):
        k, t = e[0], e[1]
        if k == "n":
            h = float.fromhex(e[2])
            r = f"(({FT[t]}){h!r})" if h >= 0 else f"(-({FT[t]}){-h!r})"
            return self.name_(names, t, r)
        if k == "if":
            return f"(({FT[t]}){self.name_(names, e[2][2], ex.lit(e[2][1], e[2][2]))})"
        if k == "neg": return f"(-{self.text(e[2], names)})"
        if k == "ff": return f"(({FT[t]}){self.text(e[2], names)})"
        return f"({self.text(e[3], names)} {e[2]} {self.text(e[4], names)})"

    def name_(self, names, t, r):
        if names is None:
            return r
        names.append((FT.get(t) or ex.NAME[t], r))
        return f"p{len(names) - 1}"

    def whole(self, c, names=None):
        x = self.text(c["e"], names)
        if c["kind"] == "cmp": return f"({x} {c['op']} {self.text(c['e2'], names)})", "bool"
        if c["kind"] == "int": return f"(({ex.NAME[c['it']]}){x})", ex.NAME[c["it"]]
        return x, FT[c["t"]]

    def render(self, c):
        return {"constant": self.whole(c)[0], "how": c["how"]}

    def put(self, x, T):
        if T == "float": return f"outf({x});"
        if T == "double": return f"outd({x});"
        t = next(k for k, v in ex.NAME.items() if v == T)
        return outs(x, t)

    def want(self, c):
        v = self.ev(c["e"])
        if c["kind"] == "cmp": return show(ex.compare(c["op"], v, self.ev(c["e2"])), "bool")
        if c["kind"] == "int": return show(int(v), c["it"])
        return f"{struct.unpack('<I', struct.pack('<f', v))[0]:x}" if c["t"] == "f32" else f"{struct.unpack('<Q', struct.pack('<d', v))[0]:x}"

    def run(self, cases):
        return c3.batch_program(cases, self.make, self.check, ("-O0",))

    def make(self, cs):
        out, calls = ["module t;", PRE2, "extern fn double fmod(double a, double b); extern fn float fmodf(float a, float b);"], []
        for i, c in enumerate(cs):
            k, T = self.whole(c)
            calls.append(f"\tprintf(\"#{i}\\n\");")
            how = c["how"]
            if how == "const":
                out.append(f"const {T} K{i} = {k};")
                calls.append("\t" + self.put(f"K{i}", T))
            elif how == "local-const":
                calls.append(f"\t{{ const {T} L = {k}; " + self.put("L", T) + " }")
            elif how == "ct-var":
                calls.append(f"\t{{ var $x = {k}; " + self.put("$x", T) + " }")
            elif how == "macro":
                out.append(f"macro m{i}() => {k};")
                calls.append("\t" + self.put(f"m{i}()", T))
            elif how == "init":
                out.append(f"{T}[2] g{i} = {{ [1] = {k} }};")
                calls.append("\t" + self.put(f"g{i}[1]", T))
            else:
                out.append(f"fn {T} id{i}({T} x) @noinline => x;")
                calls.append("\t" + self.put(f"id{i}({k})", T))
            names = []
            r, _ = self.whole(c, names)
            out.append(f"fn {T} r{i}({', '.join(f'{n} p{j}' for j, (n, _) in enumerate(names))}) @noinline => {r};")
            calls.append("\t" + self.put(f"r{i}({', '.join(v for _, v in names)})", T))
        return "\n".join(out) + "\nfn int main()\n{\n" + "\n".join(calls) + "\n\treturn 0;\n}\n"

    def check(self, cs, out):
        res = []
        for c, g in zip(cs, split(out, len(cs))):
            w = self.want(c)
            res.append(None if g == [w, w] else f"{self.whole(c)[0]} ({c['how']}): at compile time / at run time {g}, expected {w}")
        return res


class Lists(pbt.Family):
    """Constant arrays, slices, structs and strings: what is read from them at compile time and at run time.

    Slicing a constant array at compile time truncates the constant (known finding), so each array slice here has a
    constant of its own; the op "keeps" (never generated) is the recorded reproduction."""
    name = "aggregate-constants"
    batch = 30
    quick, thorough = 2500, 40000
    OPS = ["index", "index-back", "len", "slice-index", "slice-len", "concat-index", "concat-len", "eq", "foreach", "struct", "nested", "slice-eq", "list", "sparse"]

    def gen(self, s):
        if s.bool(1, 3):
            t = "str"
            a = [s.choice(b"abcXYZ 019_\x01\x7f\x1b\0") for _ in range(s.int(1, 8))]
            b = [s.choice(b"abcXYZ 019_") for _ in range(s.int(1, 5))]
        else:
            t = s.choice(ex.TYPES)
            a = [s.inum(ex.bits(t), ex.signed(t)) for _ in range(s.int(1, 7))]
            b = [s.inum(ex.bits(t), ex.signed(t)) for _ in range(s.int(1, 4))]
        ops = []
        for _ in range(s.int(1, 6)):
            lo = s.draw(len(a) - 1)
            hi = s.int(lo, len(a) - 1)
            ops.append([s.choice(self.OPS), lo, hi, s.draw(hi - lo), s.draw(len(a) + len(b) - 1)])
        return {"t": t, "a": a, "b": b, "ops": ops}

    def labels(self, c):
        return {o[0] for o in c["ops"]} | {c["t"]}

    def nontrivial(self, c):
        return len(c["a"]) > 1

    def values(self, c):
        a, b, t = c["a"], c["b"], c["t"]
        for op, lo, hi, k, m in c["ops"]:
            if op == "index": yield [a[lo]] * 2
            elif op == "keeps": yield [a[lo + k], a[m % len(a)]]
            elif op == "index-back": yield [a[len(a) - 1 - lo]] * 2
            elif op == "len": yield [len(a)] * 2
            elif op == "slice-index": yield [a[lo + k]] * 2
            elif op == "slice-len": yield [hi - lo + 1] * 2
            elif op == "concat-index": yield [(a + b)[m]]
            elif op == "concat-len": yield [len(a + b)]
            elif op == "eq": yield [int(a == b), 1]
            elif op == "slice-eq": yield [int(a[lo:hi + 1] == a[:hi - lo + 1])] * 2
            elif op == "foreach": yield [ex.wrap(sum((i + 1) * v for i, v in enumerate(a)), "i128")]
            elif op == "struct": yield [a[lo], b[0]] * 2
            elif op == "list": yield [hi - lo + 1, a[lo + k], len(a), a[m % len(a)]]
            elif op == "sparse":
                sp = [0] * (len(a) + 3)
                sp[lo + 1], sp[hi + 2] = b[0], a[0]
                yield [sp[m % len(sp)], sp[lo + k], sp[hi], sp[hi + 2], sum(x * (i + 1) for i, x in enumerate(sp))]
            elif op == "nested": yield [a[lo], b[len(b) - 1]] * 2

    def want(self, c):
        return [show(v, "i128") for vs in self.values(c) for v in vs]

    def run(self, cases):
        return c3.batch_program(cases, self.make, self.check, ("-O0",))

    def strlit(self, b):
        return '"' + "".join(chr(x) if 32 <= x < 127 and x not in (34, 92) else f"\\x{x:02x}" for x in b) + '"'

    def make(self, cs):
        out = ["module t;", PRE, "fn usz rt(usz x) @noinline => x;"]
        calls = []
        for i, c in enumerate(cs):
            a, b, t = c["a"], c["b"], c["t"]
            st = t == "str"
            T = "char" if st else ex.NAME[t]
            la = self.strlit(a) if st else "{ " + ", ".join(ex.lit(v, t) for v in a) + " }"
            lb = self.strlit(b) if st else "{ " + ", ".join(ex.lit(v, t) for v in b) + " }"
            AT = "String" if st else f"{T}[{len(a)}]"
            BT = "String" if st else f"{T}[{len(b)}]"
            out += [f"const {AT} A{i} = {la};", f"const {BT} B{i} = {lb};",
                    f"struct St{i} {{ int x; {T} u; {T}[2] v; }}", f"const St{i} SC{i} = {{ 7, {ex.lit(b[0], t if not st else 'u8')}, {{ [1] = {ex.lit(a[0], t if not st else 'u8')} }} }};"]
            o = lambda x: outs(x, "u8" if st else t)
            n = lambda x: outs(f"(usz)({x})", "u64")
            bo = lambda x: outs(x, "bool")
            A, B = f"A{i}", f"B{i}"
            calls.append(f"\tprintf(\"#{i}\\n\");")
            for j, (op, lo, hi, k, m) in enumerate(c["ops"]):
                P = A
                if not st and op in ("slice-index", "slice-len", "keeps"):
                    P = f"P{i}_{j}"
                    out.append(f"const {AT} {P} = {la};")
                if op == "keeps": x = f"{AT} r = {A}; {T} x = {P}[{lo}..{hi}][{k}]; {o('x')} {AT} q = {P}; {o(f'q[rt({m % len(a)})]')}"
                elif op == "index": x = f"const {T} X = {A}[{lo}]; {o('X')} {AT} r = {A}; {o(f'r[rt({lo})]')}"
                elif op == "index-back": x = f"const {T} X = {A}[^{lo + 1}]; {o('X')} {AT} r = {A}; {o(f'r[^rt({lo + 1})]')}"
                elif op == "len": x = f"const usz X = {A}.len; {n('X')} {AT} r = {A}; {n('r.len')}"
                elif op == "slice-index": x = f"{'const ' if st else ''}{T} {'X' if st else 'x'} = {P}[{lo}..{hi}][{k}]; {o('X' if st else 'x')} {AT} r = {A}; {o(f'r[rt({lo})..rt({hi})][rt({k})]')}"
                elif op == "slice-len": x = f"{'const ' if st else ''}usz {'X' if st else 'x'} = {P}[{lo}:{hi - lo + 1}].len; {n('X' if st else 'x')} {AT} r = {A}; {n(f'r[rt({lo}):rt({hi - lo + 1})].len')}"
                elif op == "concat-index": x = f"var $x{j} = {A} +++ {B}; {o(f'$x{j}[{m}]')}"
                elif op == "concat-len": x = f"var $x{j} = {A} +++ {B}; {n(f'$x{j}.len')}"
                elif op == "eq":
                    if st: x = f"{bo(f'{A} == {B}')} {bo(f'{A} == {la}')}"
                    else: x = f"{AT} r = {A}; {T}[] p = r[..]; {BT} q = {B}; {T}[] z = q[..]; {bo('p == z')} {bo(f'r == {A}')}"
                elif op == "slice-eq": x = f"{AT} r = {A}; {bo(f'{A}[{lo}..{hi}] == {A}[..{hi - lo}]')} {bo(f'r[rt({lo})..rt({hi})] == r[..rt({hi - lo})]')}" if st else \
                        f"{AT} r = {A}; {bo(f'r[{lo}..{hi}] == r[..{hi - lo}]')} {bo(f'r[rt({lo})..rt({hi})] == r[..rt({hi - lo})]')}"
                elif op == "foreach": x = f"int128 $s{j} = 0; $foreach $i, $v : {A}: $s{j} = $s{j} + (int128)($i + 1) * (int128)$v; $endforeach {outs(f'$s{j}', 'i128')}"
                elif op == "struct": x = f"const {T} X = {A}[{lo}]; const {T} Y = SC{i}.u; {o('X')} {o('Y')} St{i} r = SC{i}; r.v[0] = {A}[rt({lo})]; {o('r.v[0]')} {o('r.u')}"
                elif op == "list":
                    q = f"{i}_{j}"
                    x = f"var $l{q} = {{ {', '.join(ex.lit(v, 'u8' if st else t) for v in a)} }}; var $m{q} = $l{q}[{lo}..{hi}]; {n(f'$m{q}.len')} {o(f'$m{q}[{k}]')} {n(f'$l{q}.len')} {o(f'$l{q}[{m % len(a)}]')}"
                elif op == "sparse":
                    q = f"{i}_{j}"
                    L = len(a) + 3
                    b0, a0 = ex.lit(b[0], 'u8' if st else t), ex.lit(a[0], 'u8' if st else t)
                    out += [f"const {T}[{L}] {nm}{q} = {{ [{lo + 1}] = {b0}, [{hi + 2}] = {a0} }};" for nm in ("SP", "SQ", "SR", "SS")]
                    x = (f"{T} x = SQ{q}[{lo}..{hi}][{k}]; {T} y = SR{q}[{lo}..{hi}][{hi - lo}]; {T} z = SS{q}[{hi + 2}..][0]; {o(f'SP{q}[rt({m % L})]')} {o('x')} {o('y')} {o('z')} "
                         f"int128 sum; {T}[{L}] r = SP{q}; foreach (i, v : r) {{ sum += (int128)(i + 1) * (int128)v; }} {outs('sum', 'i128')}")
                else:
                    x = (f"const {T}[2][2] N = {{ {{ {ex.lit(a[0], 'u8' if st else t)}, {A}[{lo}] }}, {{ [1] = {B}[{len(b) - 1}] }} }}; const {T} X = N[0][1]; const {T} Y = N[1][1]; {o('X')} {o('Y')} "
                         f"{T}[2][2] r = N; {o('r[rt(0)][rt(1)]')} {o('r[rt(1)][rt(1)]')}")
                calls.append(f"\t{{ {x} }}")
        return "\n".join(out) + "\nfn int main()\n{\n" + "\n".join(calls) + "\n\treturn 0;\n}\n"

    def check(self, cs, out):
        res = []
        for c, g in zip(cs, split(out, len(cs))):
            w = self.want(c)
            res.append(None if g == w else f"got {g}, expected {w}\n" + self.make([c])[-1500:])
        return res


class C02(pbt.Check):
    id = "C02"
    rule = "the expression has an operator; distinct by tree, operand values and the place that demands a constant"
    families = [Ints(), Floats(), Lists()]


CHECK = C02()
