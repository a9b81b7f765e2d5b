"""C12: arrays, slices and initializers denote the elements the language defines."""
from vf import pbt, pf

LEVELS = [("-O0",), ("-O1",), ("-O3",), ("-O0", "--safe=no", "-g0"), ("-O2", "--safe=no")]
SC = {"char": (0, 255), "ichar": (-128, 127), "short": (-32768, 32767), "int": (-(1 << 31), (1 << 31) - 1), "ulong": (0, (1 << 63) - 1), "float": (-1000, 1000), "double": (-100000, 100000), "bool": (0, 1)}


class Types:
    """Types are ["i", name], ["a", n, T], ["v", n, name], ["s", [T..]], ["u", [T..]]; aggregates are named on first use."""

    def __init__(self, k):
        self.k, self.names, self.decl = k, {}, []

    def name(self, t):
        if t[0] == "i": return t[1]
        if t[0] == "a": return f"{self.name(t[2])}[{t[1]}]"
        if t[0] == "v": return f"{t[2]}[<{t[1]}>]"
        key = repr(t)
        if key not in self.names:
            f = " ".join(f"{self.name(x)} f{i};" for i, x in enumerate(t[1]))
            n = self.names[key] = f"Ty{self.k}_{len(self.names)}"
            self.decl.append(f"{'struct' if t[0] == 's' else 'union'} {n} {{ {f} }}")
        return self.names[key]


def zero(t):
    if t[0] == "i": return 0
    if t[0] == "a": return [zero(t[2]) for _ in range(t[1])]
    if t[0] == "v": return [0] * t[1]
    if t[0] == "s": return [zero(x) for x in t[1]]
    return [0, zero(t[1][0])]


def kids(t):
    """Designators of a composite and the types they select."""
    if t[0] == "a": return [(f"[{i}]", t[2]) for i in range(t[1])]
    if t[0] == "v": return [(f"[{i}]", ["i", t[2]]) for i in range(t[1])]
    return [(f".f{i}", x) for i, x in enumerate(t[1])]


def leaves(t, v, path):
    if t[0] == "i": return [(path, t[1], v)]
    if t[0] == "u":
        i = v[0]
        return leaves(t[1][i], v[1], f"{path}.f{i}")
    o = []
    for (d, x), y in zip(kids(t), v): o += leaves(x, y, path + d)
    return o


def scal(n, v, rt):
    if n == "bool": return f"(idl({v}) != 0)" if rt else ("true" if v else "false")
    if n in ("float", "double"): return f"({n})idd({v}.0)" if rt else f"{v}.0"
    return f"({n})idl({v})" if rt else (str(v) if v != -(1 << 31) else "int.min")


def apply(t, node):
    """The value an initializer denotes."""
    k = node[0]
    if k == "c": return node[1]
    if k in ("z", "zi"): return zero(t)
    if k in ("lit", "var", "call", "tern"): return apply(t, node[1])
    if k == "pos": return [apply(x, n) for (_, x), n in zip(kids(t), node[1])]
    if k == "part": return [apply(x, n) for (_, x), n in zip(kids(t), node[1])]
    if k == "spl":
        a = apply(["a", node[3], t[2]], node[1])
        return a + [apply(t[2], n) for n in node[2]]
    if k == "un": return [node[1], apply(t[1][node[1]], node[2])]
    if k == "des":
        v = zero(t)
        for path, n in node[1]:
            put(t, v, path, n)
        return v
    raise KeyError(k)


def put(t, v, path, n):
    p = path[0]
    idx = range(p[0], p[1] + 1) if isinstance(p, list) else [p]
    for i in idx:
        x = kids(t)[i][1]
        if len(path) == 1: v[i] = apply(x, n)
        else: put(x, v[i], path[1:], n)


class Txt:
    def __init__(self, T, const):
        self.T, self.const, self.pre, self.n, self.fns = T, const, [], 0, []

    def text(self, t, node):
        k = node[0]
        if k == "c": return scal(t[1], node[1], node[2] and not self.const)
        if k == "z": return "{}"
        if k == "lit": return f"({self.T.name(t)}) {self.text(t, node[1])}" if node[1][0] in ("z", "pos", "part", "un", "des", "spl") else self.text(t, node[1])
        if k == "tern":
            a = self.text(t, ["lit", node[1]])
            return f"(idl({node[2]}) ? {a} : {a})" if not self.const and t[0] != "i" else self.text(t, node[1])
        if k in ("var", "call"):
            if self.const or t[0] == "i": return self.text(t, node[1])
            self.n += 1
            v = f"v{self.n}"
            nm = self.T.name(t)
            if k == "call":
                sub = Txt(self.T, self.const)
                sub.n = me = self.n
                sub.n += 1
                x = sub.text(t, node[1])
                self.n = sub.n
                self.fns += sub.fns + [f"fn {nm} f{self.T.k}_{me}() @noinline {{ {' '.join(sub.pre)} return {x}; }}"]
                return f"f{self.T.k}_{me}()"
            x = self.text(t, node[1])
            self.pre.append(f"{nm} {v} = {x};")
            return v
        if k in ("pos", "part"):
            return "{ " + ", ".join(self.text(x, n) for (_, x), n in zip(kids(t), node[1])) + " }"
        if k == "spl":
            a = ["a", node[3], t[2]]
            s = self.text(a, ["lit", node[1]]) if self.const else self.text(a, ["var", node[1]])
            return "{ ..." + ", ".join([s] + [self.text(t[2], n) for n in node[2]]) + " }"
        if k == "un": return f"{{ .f{node[1]} = {self.text(t[1][node[1]], node[2])} }}"
        if k == "des":
            o = []
            for path, n in node[1]:
                x, d = t, ""
                for p in path:
                    i = p[0] if isinstance(p, list) else p
                    de, y = kids(x)[i]
                    d += f"[{p[0]}..{p[1]}]" if isinstance(p, list) else de
                    x = y
                o.append(f"{d} = {self.text(x, n)}")
            return "{ " + ", ".join(o) + " }"
        raise KeyError(k)


class Init(pf.PF):
    name = "initializers"
    quick, thorough = 3000, 60000
    levels = LEVELS
    batch = 25

    def ty(self, s, d):
        k = s.weighted([(3, "i"), (4 if d else 0, "s"), (4 if d else 0, "a"), (1, "v"), (1 if d else 0, "u")])
        if k == "i": return [k, s.choice(sorted(SC))]
        if k == "v": return [k, s.choice([2, 3, 4]), s.choice(["int", "float", "char"])]
        if k == "a": return [k, s.int(1, 5), self.ty(s, d - 1)]
        return [k, [self.ty(s, d - 1) for _ in range(s.int(1, 4))]]

    def node(self, s, t, d, rt):
        if t[0] == "i":
            lo, hi = SC[t[1]]
            v = s.choice([lo, hi, s.int(-3, 9), s.int(1, 99)])
            return ["c", max(lo, min(hi, v)), int(rt and s.bool())]
        k = s.weighted([(6, "x"), (1, "z"), (1, "lit"), (1, "var"), (1, "call"), (1, "tern")])
        if k == "z" : return ["z"]
        if k == "x" or d <= 0 or (k != "lit" and not rt): return self.agg(s, t, d, rt)
        return [k, self.agg(s, t, d - 1, rt)] + ([s.draw(1)] if k == "tern" else [])

    def agg(self, s, t, d, rt):
        N = lambda x: self.node(s, x, d - 1, rt)
        if t[0] == "u":
            i = s.draw(len(t[1]) - 1)
            return ["un", i, N(t[1][i])]
        ks = kids(t)
        if t[0] == "v": return ["pos", [N(x) for _, x in ks]]
        if t[0] == "a" and s.bool(1, 8):
            m = s.int(1, t[1])
            return ["spl", self.agg(s, ["a", m, t[2]], d - 1, rt), [N(t[2]) for _ in range(t[1] - m)], m]
        if s.bool(): return ["pos", [N(x) for _, x in ks]]
        ent, n = [], s.int(1, 4)
        for _ in range(n):
            x, p = t, []
            while True:
                ks = kids(x)
                if x[0] == "a" and s.bool(1, 4):
                    a = s.draw(len(ks) - 1)
                    b = s.int(a, len(ks) - 1)
                    p.append([a, b])
                    i = a
                else:
                    i = s.draw(len(ks) - 1)
                    p.append(i)
                x = ks[i][1]
                if x[0] not in ("s", "a") or s.bool(2, 3): break
            ent.append([p, N(x)])
        return ["des", ent]

    def gen(self, s):
        t = ["i", "int"]
        while t[0] in "iv": t = self.ty(s, 3)
        ctx = s.choice(["local", "local", "assign", "assign", "global", "const", "static", "arg", "ret", "lit", "elem", "ptr", "default", "ctor"])
        const = ctx in ("global", "const", "static")
        return {"t": t, "init": self.agg(s, t, 2, not const), "ctx": ctx, "const": int(const), "mod": s.draw(40), "level": s.draw(4)}

    def nontrivial(self, c): return len(leaves(c["t"], apply(c["t"], c["init"]), "")) >= 2

    def labels(self, c):
        o = {c["ctx"], " ".join(self.level(c))}
        def go(n):
            if isinstance(n, list):
                if n and isinstance(n[0], str): o.add(n[0])
                for x in n: go(x)
        go(c["init"]); go(c["t"])
        return o

    def valid(self, c):
        try:
            if c["t"][0] not in "sau" or len(leaves(c["t"], zero(c["t"]), "")) > 400: return False
            self.emit(0, c)
            return True
        except Exception:
            return False

    def reduce(self, c):
        def go(n):
            k = n[0]
            if k == "c": return
            if k != "z": yield ["z"]
            if k in ("lit", "var", "call", "tern"):
                yield n[1]
                for x in go(n[1]): yield [k, x] + n[2:]
            if k == "pos":
                for i, y in enumerate(n[1]):
                    for x in go(y): yield [k, n[1][:i] + [x] + n[1][i + 1:]]
            if k == "spl":
                for x in go(n[1]): yield [k, x] + n[2:]
                for i, y in enumerate(n[2]):
                    for x in go(y): yield [k, n[1], n[2][:i] + [x] + n[2][i + 1:], n[3]]
            if k == "un":
                for x in go(n[2]): yield [k, n[1], x]
            if k == "des":
                for i, y in enumerate(n[1]):
                    if len(n[1]) > 1: yield [k, n[1][:i] + n[1][i + 1:]]
                    for x in go(y[1]): yield [k, n[1][:i] + [[y[0], x]] + n[1][i + 1:]]
        for x in go(c["init"]): yield {**c, "init": x}
        if not c["const"] and c["ctx"] != "local": yield {**c, "ctx": "local"}
        if c["level"]: yield {**c, "level": 0}

    def emit(self, k, c):
        T = Types(k)
        t = c["t"]
        nm = T.name(t)
        X = Txt(T, c["const"])
        v = apply(t, c["init"])
        ctx = c["ctx"]
        if ctx in ("lit", "ptr"): tx = X.text(t, ["lit", c["init"]])
        else: tx = X.text(t, c["init"])
        pre = "\n\t".join(X.pre)
        D, B = [], []
        name = "x"
        if ctx == "local": B += [pre, f"{nm} x = {tx};"]
        elif ctx == "assign": B += [pre, f"{nm} x @noinit; fill(&x, {nm}.sizeof); x = {tx};"]
        elif ctx == "elem": B += [pre, f"{nm}[3] g @noinit; fill(&g, {nm}.sizeof * 3); g[idl(1)] = {tx}; pl(\"guard\", (long)guard(&g[0], {nm}.sizeof) + guard(&g[2], {nm}.sizeof)); {nm} x = g[1];"]
        elif ctx == "lit": B += [pre, f"{nm} x = {tx};"]
        elif ctx == "ptr": B += [pre, f"{nm}* p = &&{tx}; {nm} x = *p;"]
        elif ctx == "static": B += [f"static {nm} x = {tx};"]
        elif ctx == "global": D.append(f"{nm} gl{k} = {tx};"); B.append(f"{nm} x = gl{k};")
        elif ctx == "const": D.append(f"const {nm} CL{k} = {tx};"); B.append(f"{nm} x = CL{k};")
        elif ctx == "arg": D.append(f"fn {nm} ar{k}(int a, {nm} x, int b) @noinline {{ pl(\"ab\", a * 100L + b); return x; }}"); B += [pre, f"{nm} x = ar{k}(3, {tx}, 4);"]
        elif ctx == "default":
            if X.pre: D.append(f"fn {nm} ar{k}(int a, {nm} x, int b) @noinline {{ pl(\"ab\", a * 100L + b); return x; }}"); B += [pre, f"{nm} x = ar{k}(3, {tx}, 4);"]
            else: D.append(f"fn {nm} ar{k}(int a, {nm} x = {tx}, int b = 4) @noinline {{ pl(\"ab\", a * 100L + b); return x; }}"); B += [f"{nm} x = ar{k}(3);"]
        elif ctx == "ret": D.append(f"fn {nm} rt{k}() @noinline {{\n\t{pre}\n\treturn {tx};\n}}"); B.append(f"{nm} x = rt{k}();")
        elif ctx == "ctor": B += [pre, f"{nm} x; {{ {nm} w = {tx}; x = w; fill(&w, {nm}.sizeof); }}"]
        W = []
        if ctx == "elem": W.append(f"guard=0")
        if ctx in ("arg", "default"): W.append("ab=304")

        def pr(t, p, v):
            if t in ("float", "double"): B.append(f'pd("{p}", {p});'); W.append(f"{p}={float(v).hex()}")
            else: B.append(f'pl("{p}", (long){p});'); W.append(f"{p}={int(v)}")
        for p, n, y in leaves(t, v, "x")[:120]: pr(n, p, y)
        # Copies are independent of their source.
        L = leaves(t, v, "")
        p, n, y = L[c["mod"] % len(L)]
        B.append(f"{nm} y = x; y{p} = {scal(n, 1 - y if n == 'bool' else 77, 1)};")
        pr(n, "x" + p, y)
        pr(n, "y" + p, 1 - y if n == "bool" else 77)
        for q, m, z in L[:40]:
            if q != p: pr(m, "y" + q, z)
        W = [fix(x) for x in W]
        return "\n".join(T.decl + X.fns + D), "\t" + "\n\t".join(x for x in B if x), W


def fix(l):
    """C's %a spelling."""
    a, b = l.rsplit("=", 1)
    if "0x" not in b: return l
    import math
    f = float.fromhex(b)
    if f == 0: return f"{a}=0x0p+0"
    m, e = b.split("p")
    h = m.split(".")[1].rstrip("0") if "." in m else ""
    return f"{a}={'-' if f < 0 else ''}0x1{'.' + h if h else ''}p{int(e):+d}"


PRE = pf.PRE + """fn void fill(void* p, usz n) @noinline { for (usz i = 0; i < n; i++) ((char*)p)[i] = 0x55; }
fn int guard(void* p, usz n) @noinline { int bad; for (usz i = 0; i < n; i++) if (((char*)p)[i] != 0x55) bad++; return bad; }
struct Se { int a; char b; }
fn void shi(int[] s) @noinline { printf("[%d]", (int)s.len); foreach (x : s) printf(" %d", x); printf("\\n"); }
fn void shs(Se[] s) @noinline { printf("[%d]", (int)s.len); foreach (x : s) printf(" %d/%d", x.a, (int)x.b); printf("\\n"); }
fn void shc(char[] s) @noinline { printf("[%d]", (int)s.len); foreach (x : s) printf(" %d", (int)x); printf("\\n"); }
fn void shl(int128[] s) @noinline { printf("[%d]", (int)s.len); foreach (x : s) printf(" %lld", (long)x); printf("\\n"); }
"""
Init.pre = PRE


class Slices(pf.PF):
    name = "slices"
    quick, thorough = 4000, 80000
    levels = LEVELS
    pre = PRE
    batch = 30

    def rng(self, s, n):
        """A range over n elements: [form, start, end], in range; empty ones too."""
        f = s.choice(["..", "..", ":", ":", "^..", "..^", "^..^", "a..", "..b", "^:", "all", ":n", "a..^1"])
        a = s.int(0, n - 1) if n else 0
        b = s.int(a, n - 1) if n else -1
        if s.bool(1, 8): f, b = s.choice([':', ':n', '^:']), a - 1
        if not n: return ["all", 0, -1]
        return [f, a, b]

    def gen(self, s):
        n = s.int(1, 9)
        ops, live = [], [n]
        for _ in range(s.int(2, 9)):
            k = s.weighted([(5, "sub"), (3, "fill"), (3, "copy"), (2, "set"), (2, "back"), (2, "each"), (1, "eachr"), (1, "eachref"), (1, "eq"), (1, "ptr"), (1, "whole"), (1, "comp"), (1, "swap"), (1, "vec"), (1, "argarr"), (1, "cat"), (1, "aptr")])
            i = s.draw(len(live) - 1)
            m = live[i]
            if k == "sub":
                r = self.rng(s, m)
                live.append(bounds(r, m)[1])
                ops.append([k, i, r, int(s.bool(3, 4))])
            elif k == "fill": ops.append([k, i, self.rng(s, m), s.int(-5, 99), int(s.bool(3, 4))])
            elif k == "copy": ops.append([k, i, self.rng(s, m), s.choice(["b", "lit"]), s.int(0, 3)])
            elif k in ("set", "back", "comp"): ops.append([k, i, s.draw(max(m - 1, 0)), s.int(-9, 99)])
            elif k == "swap": ops.append([k, i, s.draw(max(m - 1, 0)), s.draw(max(m - 1, 0))])
            elif k == "eq": ops.append([k, i, s.draw(len(live) - 1)])
            elif k in ("vec", "argarr", "whole", "cat", "aptr"): ops.append([k, s.int(0, 99), s.int(0, 9)])
            else: ops.append([k, i, s.choice(["char", "int", "usz", "long"])])
        return {"e": s.choice(["int", "int", "char", "Se", "int128"]), "n": n, "ops": ops, "level": s.draw(4)}

    def nontrivial(self, c): return len(c["ops"]) >= 3
    def labels(self, c): return {o[0] for o in c["ops"]} | {c["e"], " ".join(self.level(c))} | {o[2][0] for o in c["ops"] if o[0] in ("sub", "fill", "copy")}

    def valid(self, c):
        try:
            self.emit(0, c)
            return True
        except Exception:
            return False

    def emit(self, k, c):
        e, n = c["e"], c["n"]
        sh = {"int": "shi", "char": "shc", "Se": "shs", "int128": "shl"}[e]
        W, B = [], []
        lit = lambda v: f"(Se) {{ (int)idl({v}), {v & 127} }}" if e == "Se" else f"({e})idl({v})"
        val = lambda v: v & 255 if e == "char" else v
        st = lambda v: f"{v}/{v & 127}" if e == "Se" else str(val(v))
        show = lambda l: f"[{len(l)}]" + "".join(" " + st(x) for x in l)
        clit = lambda v: f"{{ {v}, {v & 127} }}" if e == "Se" else str(v)
        A = [i * 3 + 1 for i in range(n)]
        Bb = [i + 50 for i in range(16)]
        B.append(f"{e}[{n}] a = {{ {', '.join(clit(x) for x in A)} }};")
        B.append(f"{e}[16] b = {{ {', '.join(clit(x) for x in Bb)} }};")
        B.append(f"{e}[] s0 = &a;")
        S = [(0, n)]
        num = lambda x, r: f"(int)idl({x})" if r else str(x)
        for j, o in enumerate(c["ops"]):
            op = o[0]
            if op in ("sub", "fill", "copy", "set", "back", "each", "eachr", "eachref", "ptr", "comp", "swap"):
                off, m = S[o[1]]
                s = f"s{o[1]}"
            if op == "sub":
                a, l = bounds(o[2], m)
                src = "a" if o[1] == 0 and not o[3] else s
                B.append(f"{e}[] s{len(S)} = {src}{rtext(o[2], m, o[3])}; {sh}(s{len(S)});")
                S.append((off + a, l))
                W.append(show(A[off + a:off + a + l]))
            elif op == "fill":
                a, l = bounds(o[2], m)
                src = "a" if o[1] == 0 and not o[4] else s
                B.append(f"{src}{rtext(o[2], m, o[4])} = {lit(o[3])}; {sh}(&a);")
                for x in range(l): A[off + a + x] = o[3]
                W.append(show(A))
            elif op == "copy":
                a, l = bounds(o[2], m)
                if o[3] == "b":
                    B.append(f"{s}{rtext(o[2], m, 1)} = b[{o[4]}:{num(l, 1)}]; {sh}(&a);")
                    A[off + a:off + a + l] = Bb[o[4]:o[4] + l]
                else:
                    if l == 0: continue
                    q = [o[4] + x for x in range(l)]
                    B.append(f"{s}{rtext(o[2], m, 1)} = ({e}[{l}]) {{ {', '.join(clit(x) for x in q)} }}[..]; {sh}(&a);")
                    A[off + a:off + a + l] = q
                W.append(show(A))
            elif op in ("set", "back", "comp"):
                if not m: continue
                i = o[2] % m
                ix = f"[{num(i, 1)}]" if op != "back" else f"[^{num(m - i, 1)}]"
                if op == "comp":
                    f = ".a" if e == "Se" else ""
                    if e == "Se": continue
                    B.append(f"{s}{ix} += {'(char)' if e == 'char' else ''}{num(o[3], 1)}; {sh}(&a);")
                    A[off + i] = val(A[off + i] + o[3])
                else:
                    B.append(f"{s}{ix} = {lit(o[3])}; {sh}(&a);")
                    A[off + i] = o[3]
                W.append(show(A))
            elif op == "swap":
                if not m: continue
                x, y = o[2] % m, o[3] % m
                B.append(f"{{ {e} t = {s}[{x}]; {s}[{x}] = {s}[{y}]; {s}[{y}] = t; }} {sh}(&a);")
                A[off + x], A[off + y] = A[off + y], A[off + x]
                W.append(show(A))
            elif op in ("each", "eachr"):
                v = "x.a" if e == "Se" else "(int)x"
                B.append(f"foreach{'_r' if op == 'eachr' else ''} ({o[2]} i, x : {s}) printf(\"%d:%d,\", (int)i, {v}); printf(\".\\n\");")
                q = [(i, A[off + i] if e == "Se" else val(A[off + i])) for i in range(m)]
                if op == "eachr": q.reverse()
                if o[2] == "char" and False: continue
                W.append("".join(f"{i}:{x}," for i, x in q) + ".")
            elif op == "eachref":
                f = "x.a" if e == "Se" else "*x"
                if e == "Se":
                    B.append(f"foreach (&x : {s}) {{ x.a += 7; x.b = (char)(x.a & 127); }} {sh}(&a);")
                else: B.append(f"foreach (&x : {s}) *x += 7; {sh}(&a);")
                for i in range(m): A[off + i] = val(A[off + i] + 7)
                W.append(show(A))
            elif op == "eq":
                if e == "Se": continue
                p, q = S[o[1]], S[o[2]]
                B.append(f"pl(\"eq\", (int)(s{o[1]} == s{o[2]})); pl(\"ne\", (int)(s{o[1]} != s{o[2]}));")
                r = [val(x) for x in A[p[0]:sum(p)]] == [val(x) for x in A[q[0]:sum(q)]]
                W += [f"eq={int(r)}", f"ne={int(not r)}"]
            elif op == "ptr":
                B.append(f"pl(\"off\", (long)({s}.ptr - &a[0])); pl(\"len\", (long){s}.len);")
                W += [f"off={off}", f"len={m}"]
            elif op == "whole":
                B.append(f"{{ {e}[{n}] z = a; z[{o[1] % n}] = {lit(o[2])}; {sh}(&z); {sh}(&a); a = z; }}")
                z = list(A); z[o[1] % n] = o[2]
                W += [show(z), show(A)]
                A = z
            elif op == "argarr":
                B.append(f"aa{k}_{j}(a); {sh}(&a);")
                z = list(A); z[o[1] % n] = o[2]
                W += [show(z), show(A)]
            elif op == "vec":
                if e == "Se" or n < 2: continue
                B.append(f"{{ {e}[<{n}>] v = a; v[{o[1] % n}] = ({e}){o[2]}; {e}[{n}] z = v; {sh}(&z); v = ({e}[<{n}>])z; v += v; z = ({e}[{n}])v; {sh}(&z); }}")
                z = list(A); z[o[1] % n] = o[2]
                W += [show(z), show([val(x * 2) for x in z])]
            elif op == "cat":
                q = [o[1], o[2], o[1] + 1]
                B.append(f"{{ {e}[*] z = {{ {clit(q[0])} }}; pl(\"l\", z.len); {e}[*] y = {{ {', '.join(clit(x) for x in q)} }}; {sh}(&y); }}")
                W += ["l=1", show(q)]
            elif op == "aptr":
                B.append(f"{{ {e}[{n}]* p = &a; (*p)[{o[1] % n}] = {lit(o[2])}; pl(\"pl\", p.len); {sh}(p); {e}[] q = (*p)[{o[1] % n}..]; {sh}(q); }}")
                A[o[1] % n] = o[2]
                W += [f"pl={n}", show(A), show(A[o[1] % n:])]
            for l in ():
                pass
        D = []
        for j, o in enumerate(c["ops"]):
            if o[0] == "argarr": D.append(f"fn void aa{k}_{j}({e}[{n}] p) @noinline {{ p[{o[1] % n}] = {lit(o[2])}; {sh}(&p); }}")
        return "\n".join(D), "\t" + "\n\t".join(B), W


def bounds(r, n):
    f, a, b = r
    if f == "all": return 0, n
    if f == "a..": return a, n - a
    if f in ("..b",): return 0, b + 1
    if f == ":n": return 0, b - a + 1
    if f == "a..^1": return a, n - a
    return a, b - a + 1


def rtext(r, n, rt):
    f, a, b = r
    N = lambda x: f"(int)idl({x})" if rt else str(x)
    if f == "all": return "[..]"
    if f == "..": return f"[{N(a)}..{N(b)}]"
    if f == ":": return f"[{N(a)}:{N(b - a + 1)}]"
    if f == "^..": return f"[^{N(n - a)}..{N(b)}]"
    if f == "..^": return f"[{N(a)}..^{N(n - b)}]"
    if f == "^..^": return f"[^{N(n - a)}..^{N(n - b)}]"
    if f == "a..": return f"[{N(a)}..]"
    if f == "..b": return f"[..{N(b)}]"
    if f == "^:": return f"[^{N(n - a)}:{N(b - a + 1)}]"
    if f == ":n": return f"[:{N(b - a + 1)}]"
    if f == "a..^1": return f"[{N(a)}..^1]"


class C12(pbt.Check):
    id = "C12"
    rule = "initializers: at least two leaves; slices: at least three operations"
    assumptions = ["slice copies between overlapping ranges are left out", "reading another member of a union than the one initialized is left out"]
    families = [Init(), Slices()]


CHECK = C12()
