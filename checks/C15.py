"""C15: macros, generics and compile time control flow equal their hand expansion (evaluated by a model of that expansion)."""
import copy
from vf import pbt, pf, c3

POOL = ["x", "y", "z", "a", "b", "q", "w", "r"]
PRE = pf.PRE + """fn long tick(int i, long v) @noinline { printf("t%d=%lld\\n", i, v); return v; }
macro long @rec($n, #e) { $if $n == 0: return 0; $else return #e + @rec($n - 1, #e); $endif }
fn long vsel(int i, long... vs) => i < vs.len ? vs[i] : -1;
macro @twice(#e, #f) { #e; #f; #e; }
macro @swp(#a, #b) { var x = #a; #a = #b; #b = x; }
"""
SIZES = {"char": 1, "short": 2, "int": 4, "long": 8, "int128": 16, "char[3]": 3, "int*": 8, "int[2][3]": 24, "double": 8, "char[]": 16}
TYPES = sorted(SIZES)


class Ret(Exception):
    def __init__(self, v): self.v = v


class Frame:
    def __init__(self):
        self.v, self.ct, self.ex, self.ty, self.va, self.body = {}, {}, {}, {}, [], None


def rem(a, b):
    r = abs(a) % abs(b)
    return -r if a < 0 else r


class Macros(pf.PF):
    name = "macros"
    quick, thorough = 3000, 60000
    levels = [("-O0",), ("-O1",), ("-O2",), ("-O0", "--safe=no", "-g0"), ("-O3",)]
    pre = PRE
    batch = 20

    # ------------------------------------------------------------ generation
    def gen(self, s):
        macros = []
        for i in range(s.int(1, 4)):
            ps = []
            names = list("abxyz")
            for _ in range(s.int(0, 4)):
                k = s.weighted([(3, "v"), (2, "t"), (3, "#"), (2, "#l"), (3, "$"), (2, "T")])
                if not names: break
                n = names.pop(s.draw(len(names) - 1))
                ps.append([k, n if k in "vt" else {"#": "#", "#l": "#", "$": "$", "T": "$"}[k[0]] + (n.upper() * 2 if False else ("T" + n if k == "T" else n))])
            va = s.choice([0, 0, 0, 1]) and all(p[0] not in () for p in ps)
            body = s.choice([0, 0, 1, 2, 3])     # number of body parameters + 1
            value = s.bool()
            m = {"ps": ps, "va": int(bool(va)), "body": int(body), "value": int(value)}
            ctx = dict(vars=[p[1] for p in ps if p[0] in "vt"], lv=[p[1] for p in ps if p[0] in "vt"] + [p[1] for p in ps if p[0] == "#l"],
                       ex=[p[1] for p in ps if p[0][0] == "#"], ct=[p[1] for p in ps if p[0] == "$"], ty=[p[1] for p in ps if p[0] == "T"],
                       va=bool(va), body=int(body), value=value, used=[p[1] for p in ps], ms=macros, inm=True, loop=0, budget=[s.int(4, 12)], tick=[100 * (i + 1)])
            m["st"] = self.stmts(s, ctx, 0, s.int(1, 5))
            if value: m["st"].append(["ret", self.expr(s, ctx, 2)])
            macros.append(m)
        ctx = dict(vars=[], lv=[], ex=[], ct=[], ty=[], va=False, body=0, value=False, used=[], ms=macros, inm=False, loop=0, budget=[s.int(5, 16)], tick=[0])
        st = []
        for n in POOL[:s.int(2, 4)]:
            st.append(["let", n, ["n", s.int(-9, 9)], 0]); ctx["vars"].append(n); ctx["lv"].append(n); ctx["used"].append(n)
        st += self.stmts(s, ctx, 0, s.int(3, 7))
        st += [["log", ["v", n]] for n in ctx["vars"][:4]]
        r = {"macros": macros, "st": st, "level": s.draw(len(self.levels) - 1)}
        if self.emit(0, r)[2] == ["too long"]: r["st"] = st[:2]
        return r

    def expr(self, s, c, d, pure=False):
        k = s.draw(15)
        if d <= 0 or k <= 2:
            o = [["n", s.int(-20, 20)]] + [["v", n] for n in c["vars"]] * 2 + ([["$", n] for n in c["ct"]] + [["#", n] for n in c["ex"] if not pure] + [["sz", n] for n in c["ty"]]) * 2
            if c["va"]: o += [["vc"], ["vx", s.draw(2)]] if not pure else [["vc"]]
            return s.choice(o)
        if k <= 6: return [s.choice("+-"), self.expr(s, c, d - 1, pure), self.expr(s, c, d - 1, pure)]
        if k == 7: return ["*", self.expr(s, c, d - 1, pure), ["n", s.int(-3, 3)]]
        if k == 8: return ["%", self.expr(s, c, d - 1, pure), s.int(2, 50)]
        if k <= 11 and not pure:
            c["tick"][0] += 1
            return ["t", c["tick"][0], self.expr(s, c, d - 1)]
        if k == 12 and not pure: return ["rec", s.int(0, 3), self.expr(s, c, d - 1)]
        if k <= 14 and not pure:
            ms = [i for i, m in enumerate(c["ms"]) if m["value"] and (c["lv"] or not any(p[0] == "#l" for p in m["ps"]))]
            if ms and not c["loop"]:
                i = s.choice(ms)
                if c["ms"][i]["body"] == 0: return ["m", i, self.args(s, c, i, d - 1), self.vargs(s, c, i)]
        return ["n", s.int(-50, 50)]

    def cte(self, s, c, d=1):
        o = [["n", s.int(-3, 9)]] + [["$", n] for n in c["ct"]] * 3 + [["sz", n] for n in c["ty"]] + ([["vc"]] if c["va"] else [])
        if d and s.bool(1, 3): return [s.choice("+-"), self.cte(s, c, 0), self.cte(s, c, 0)]
        return s.choice(o)

    def args(self, s, c, i, d):
        r = []
        for k, n in c["ms"][i]["ps"]:
            if k in "vt": r.append(self.expr(s, c, d))
            elif k == "#": r.append(self.expr(s, c, max(d, 1)))
            elif k == "#l": r.append(self.lval(s, c))
            elif k == "$": r.append(self.cte(s, c))
            else: r.append(["T", s.choice(c["ty"] + TYPES)])
        return r

    def lval(self, s, c):
        n = s.choice(c["lv"]) if c["lv"] else None
        return ["n", 0] if n is None else ["#", n] if n[0] == "#" else ["v", n]

    def vargs(self, s, c, i):
        return [self.expr(s, c, 1) for _ in range(s.int(0, 3))] if c["ms"][i]["va"] else []

    def stmts(self, s, c, d, n):
        """Declarations made here are visible to the statements after them only."""
        sv = {k: list(c[k]) for k in ("vars", "lv", "ct")}
        r = []
        for _ in range(n):
            if c["budget"][0] <= 0: break
            c["budget"][0] -= 1
            r.append(self.stmt(s, c, d))
        if d:
            for k in sv: c[k] = sv[k]
        return r

    def inner(self, s, c, d, **kw):
        """Statements with additional names."""
        c = {**c, **{k: list(c[k]) for k in ("vars", "lv", "ct")}, **{k: (c[k] + v if isinstance(v, list) else v) for k, v in kw.items()}}
        return self.stmts(s, c, d + 1, s.int(1, 3))

    def stmt(self, s, c, d):
        k = s.weighted([(4, "let"), (4, "set"), (4, "log"), (2, "if"), (2, "for"), (3, "$if"), (2, "$for"), (2, "$foreach"), (2, "$switch"), (2, "tsw"), (5, "call"), (5, "body"), (2, "ret"), (2, "defer"), (1, "swp"), (1, "twice"), (1, "ctv")])
        if d >= 3 and k in ("if", "for", "$if", "$for", "$foreach", "$switch", "tsw", "defer"): k = "log"
        fresh = [n for n in POOL if n not in c["used"]]
        if k == "let" and fresh:
            n = s.choice(fresh)
            e = self.expr(s, c, 2)
            c["used"].append(n); c["vars"].append(n); c["lv"].append(n)
            return ["let", n, e, s.draw(1) if c["inm"] else 0]
        if k == "set" and c["lv"]:
            n = s.choice(c["lv"])
            return ["set", n, s.choice(["", "+", "-"]), self.expr(s, c, 2)]
        if k == "if": return ["if", self.expr(s, c, 1), self.inner(s, c, d), self.inner(s, c, d) if s.bool() else []]
        if k == "for" and not c["loop"]:
            n = f"i{d}"
            if n not in c["used"]:
                c["used"].append(n)
                return ["for", n, s.int(0, 3), self.inner(s, c, d, vars=[n], loop=1)]
        if k == "$if": return ["$if", self.cte(s, c), s.choice(["<", "==", ">"]), self.cte(s, c), self.inner(s, c, d), self.inner(s, c, d) if s.bool() else None]
        if k in ("$for", "$foreach"):
            c["used"].append("$")
            u = c["used"].count("$")
        if k == "$for" and not c["loop"]: return ["$for", f"$i{u}", s.int(0, 3), self.inner(s, c, d, ct=[f"$i{u}"], loop=1)]
        if k == "$foreach" and not c["loop"]:
            return ["$foreach", f"$k{u}" if s.bool() else None, f"$v{u}", [s.int(-5, 20) for _ in range(s.int(1, 3))], self.inner(s, c, d, ct=[f"$v{u}"], loop=1)]
        if k == "$switch":
            vs = sorted({s.int(-2, 8) for _ in range(s.int(1, 4))})
            return ["$switch", self.cte(s, c), [[v, None if i + 1 < len(vs) and s.bool(1, 4) else self.inner(s, c, d)] for i, v in enumerate(vs)], self.inner(s, c, d) if s.bool(3, 4) else None]
        if k == "tsw" and c["ty"]:
            ts = sorted({s.choice(TYPES) for _ in range(s.int(1, 3))})
            return ["tsw", s.choice(c["ty"]), [[t, self.inner(s, c, d)] for t in ts], self.inner(s, c, d) if s.bool(3, 4) else None]
        if k == "body" and c["body"]: return ["body", [self.expr(s, c, 1) for _ in range(c["body"] - 1)]]
        if k == "call" and c["ms"] and not (c["loop"] and s.bool()):
            i = s.draw(len(c["ms"]) - 1)
            m = c["ms"][i]
            if not c["lv"] and any(p[0] == "#l" for p in m["ps"]): return ["log", ["n", 3]]
            b = None
            if m["body"]:
                ps = [f"u{d}{j}" for j in range(m["body"] - 1)]
                if any(p in c["used"] for p in ps): return ["log", ["n", 2]]
                c["used"] += ps
                b = [ps, self.inner(s, c, d, vars=ps, lv=ps, value=None, loop=1)]
            return ["call", i, self.args(s, c, i, 2), self.vargs(s, c, i), b]
        if k == "ret" and c["inm"] and d and c["value"] is not None:
            return ["if", self.expr(s, c, 1), [["ret", self.expr(s, c, 1) if c["value"] else None]], []]
        if k == "defer" and c["value"] is not None:
            return ["defer", self.inner({}, c, d) if False else [["log", self.expr(s, {**c, "ms": []}, 1)]]]
        if k == "swp" and c["lv"]: return ["swp", self.lval(s, c), self.lval(s, c)]
        if k == "twice":
            c["tick"][0] += 2
            return ["twice", ["t", c["tick"][0], self.expr(s, c, 1)], ["t", c["tick"][0] - 1, self.expr(s, c, 1)]]
        if k == "ctv" and not c["loop"] and "$cv" not in c["ct"] and d == 0:
            e = self.cte(s, c)
            c["ct"].append("$cv")
            return ["ctv", e, s.int(1, 4), self.cte(s, {**c, "ct": [x for x in c["ct"] if x != "$cv"]})]
        return ["log", self.expr(s, c, 2)]

    # ------------------------------------------------------------ text
    def et(self, e, k):
        o = e[0]
        if o == "n": return f"{e[1]}" if e[1] >= 0 else f"({e[1]})"
        if o in ("v", "$", "#"): return e[1]
        if o == "sz": return f"((long){e[1]}.sizeof)"
        if o == "vc": return "((long)$vacount)"
        if o == "vx": return f"@vx{k}($vasplat)" if False else f"(long)vsel({e[1]}, $vasplat)"
        if o in "+-*": return f"({self.et(e[1], k)} {o} {self.et(e[2], k)})"
        if o == "%": return f"(({self.et(e[1], k)}) % {e[2]})"
        if o == "t": return f"tick({e[1]}, {self.et(e[2], k)})"
        if o == "rec": return f"@rec({e[1]}, {self.et(e[2], k)})"
        if o == "T": return e[1]
        if o == "m": return f"@m{k}_{e[1]}({self.at(e[1], e[2], e[3], k)})"
        raise AssertionError(e)

    def at(self, i, args, va, k):
        ps = [p[0] for p in self.ms[i]["ps"]] + ["t"] * len(va)
        return ", ".join(f"(long)({self.et(a, k)})" if p == "v" else self.et(a, k) for p, a in zip(ps, args + va))

    def stt(self, st, k, ind):
        T = "\t" * ind
        r = []
        for x in st:
            o = x[0]
            if o == "let": r.append(f"{T}{'long' if x[3] == 0 else 'var'} {x[1]} = (long)({self.et(x[2], k)}) % 1000;")
            elif o == "set": r.append(f"{T}{x[1]} = ({'' if not x[2] else x[1] + ' ' + x[2] + ' '}{self.et(x[3], k)}) % 1000;")
            elif o == "log": r.append(f'{T}pl("l", {self.et(x[1], k)});')
            elif o == "if":
                r.append(f"{T}if ({self.et(x[1], k)} > 0)\n{T}{{\n{self.stt(x[2], k, ind + 1)}\n{T}}}" + (f"\n{T}else\n{T}{{\n{self.stt(x[3], k, ind + 1)}\n{T}}}" if x[3] else ""))
            elif o == "for": r.append(f"{T}for (long {x[1]} = 0; {x[1]} < {x[2]}; {x[1]}++)\n{T}{{\n{self.stt(x[3], k, ind + 1)}\n{T}}}")
            elif o == "$if": r.append(f"{T}$if {self.et(x[1], k)} {x[2]} {self.et(x[3], k)}:\n{self.blk(x[4], k, ind)}\n" + (f"{T}$else\n{self.blk(x[5], k, ind)}\n" if x[5] is not None else "") + f"{T}$endif")
            elif o == "$for": r.append(f"{T}$for var {x[1]} = 0; {x[1]} < {x[2]}; {x[1]}++:\n{self.blk(x[3], k, ind)}\n{T}$endfor")
            elif o == "$foreach": r.append(f"{T}$foreach {x[1] + ', ' if x[1] else ''}{x[2]} : {{ {', '.join(map(str, x[3]))} }}:\n" + (f'{T}\tpl("k", {x[1]});\n' if x[1] else "") + f"{self.blk(x[4], k, ind)}\n{T}$endforeach")
            elif o in ("$switch", "tsw"):
                h = self.et(x[1], k) if o == "$switch" else x[1]
                t = f"{T}$switch {h}:\n"
                for v, b in x[2]: t += f"{T}$case {v}:\n" + (self.blk(b, k, ind) + "\n" if b is not None else "")
                if x[3] is not None: t += f"{T}$default:\n{self.blk(x[3], k, ind)}\n"
                r.append(t + f"{T}$endswitch")
            elif o == "body": r.append(f"{T}@body({', '.join(self.et(e, k) for e in x[1])});")
            elif o == "call":
                b = x[4]
                t = f"{T}@m{k}_{x[1]}({self.at(x[1], x[2], x[3], k)}" + ("; " + ", ".join(f"long {p}" for p in b[0]) if b and b[0] else "") + ")"
                r.append(t + (f"\n{T}{{\n{self.stt(b[1], k, ind + 1)}\n{T}}};" if b else ";"))
            elif o == "ret": r.append(f"{T}return{' (long)(' + self.et(x[1], k) + ') % 1000' if x[1] is not None else ''};")
            elif o == "defer": r.append(f"{T}defer\n{T}{{\n{self.stt(x[1], k, ind + 1)}\n{T}}}")
            elif o == "swp": r.append(f"{T}@swp({self.et(x[1], k)}, {self.et(x[2], k)});")
            elif o == "twice": r.append(f"{T}@twice({self.et(x[1], k)}, {self.et(x[2], k)});")
            elif o == "ctv": r.append(f'{T}var $cv = {self.et(x[1], k)};\n{T}$for var $j = 0; $j < {x[2]}; $j++:\n{T}\t$cv += {self.et(x[3], k)};\n{T}$endfor\n{T}pl("cv", $cv);')
            else: raise AssertionError(x)
        return "\n".join(r)

    def blk(self, st, k, ind):
        T = "\t" * ind
        t = self.stt(st, k, ind + 1)
        return f"{T}\t{{\n{t}\n{T}\t}}" if any(x[0] in ("let", "defer") for x in st) else t

    def emit(self, k, c):
        self = copy.copy(self)
        self.ms = c["macros"]
        D = []
        for i, m in enumerate(c["macros"]):
            ps = [("long " if p[0] == "t" else "") + p[1] for p in m["ps"]]
            if m["va"]: ps.append("...")
            t = ", ".join(ps)
            if m["body"]: t += "; @body(" + ", ".join(f"long p{j}" for j in range(m["body"] - 1)) + ")"
            D.append(f"macro {'long' if m['value'] else 'void'} @m{k}_{i}({t})\n{{\n{self.stt(m['st'], k, 1)}\n}}")
        me = copy.copy(self)
        me.W, me.fuel = [], 3000
        try: me.run_block(c, c["st"], Frame())
        except OverflowError: me.W = ["too long"]
        return "\n".join(D), self.stt(c["st"], k, 1), me.W

    # ------------------------------------------------------------ model
    def ev(self, c, e, f):
        self.fuel -= 1
        if self.fuel < 0: raise OverflowError
        o = e[0]
        if o == "n": return e[1]
        if o == "v": return f.v[e[1]]
        if o == "$": return f.ct[e[1]]
        if o == "#": return self.ev(c, *f.ex[e[1]])
        if o == "sz": return SIZES[f.ty[e[1]]]
        if o == "vc": return len(f.va)
        if o == "vx":
            vs = [self.ev(c, *a) for a in f.va]
            return vs[e[1]] if e[1] < len(vs) else -1
        if o in "+-*":
            a, b = self.ev(c, e[1], f), self.ev(c, e[2], f)
            return a + b if o == "+" else a - b if o == "-" else a * b
        if o == "%": return rem(self.ev(c, e[1], f), e[2])
        if o == "t":
            v = self.ev(c, e[2], f)
            self.W.append(f"t{e[1]}={v}")
            return v
        if o == "rec":
            r = 0
            for _ in range(e[1]): r += self.ev(c, e[2], f)
            return r
        if o == "m": return self.call(c, e[1], e[2], e[3], None, f)
        raise AssertionError(e)

    def call(self, c, i, args, va, body, f):
        m = c["macros"][i]
        n = Frame()
        for (k, name), a in zip(m["ps"], args):
            if k in "vt": n.v[name] = self.ev(c, a, f)
            elif k[0] == "#": n.ex[name] = (a, f)
            elif k == "$": n.ct[name] = self.ev(c, a, f)
            else: n.ty[name] = f.ty.get(a[1], a[1])
        n.va = [(a, f) for a in va]
        n.body = (body, f)
        try: self.run_block(c, m["st"], n)
        except Ret as r: return r.v

    def assign(self, n, f, v):
        """Assigns to a variable or to what a #parameter names."""
        while n[0] == "#":
            (e, f) = f.ex[n]
            n = e[1]
        f.v[n] = v

    def read(self, c, n, f):
        return self.ev(c, ["#" if n[0] == "#" else "v", n], f)

    def run_block(self, c, st, f):
        defers = []
        try:
            for x in st: self.step(c, x, f, defers)
        finally:
            for d in reversed(defers): self.run_block(c, d, f)

    def step(self, c, x, f, defers):
        o = x[0]
        if o == "let": f.v[x[1]] = rem(self.ev(c, x[2], f), 1000)
        elif o == "set":
            old = self.read(c, x[1], f) if x[2] else 0
            v = self.ev(c, x[3], f)
            self.assign(x[1], f, rem(old + v if x[2] == "+" else old - v if x[2] == "-" else v, 1000))
        elif o == "log": self.W.append(f"l={self.ev(c, x[1], f)}")
        elif o == "if":
            if self.ev(c, x[1], f) > 0: self.run_block(c, x[2], f)
            elif x[3]: self.run_block(c, x[3], f)
        elif o in ("for", "$for"):
            for i in range(x[2]):
                (f.v if o == "for" else f.ct)[x[1]] = i
                self.run_block(c, x[3], f)
        elif o == "$foreach":
            for i, v in enumerate(x[3]):
                f.ct[x[2]] = v
                if x[1]: self.W.append(f"k={i}")
                self.run_block(c, x[4], f)
        elif o == "$if":
            a, b = self.ev(c, x[1], f), self.ev(c, x[3], f)
            if (a < b if x[2] == "<" else a == b if x[2] == "==" else a > b): self.run_block(c, x[4], f)
            elif x[5] is not None: self.run_block(c, x[5], f)
        elif o in ("$switch", "tsw"):
            v = self.ev(c, x[1], f) if o == "$switch" else f.ty[x[1]]
            for j, (w, b) in enumerate(x[2]):
                if w == v:
                    while x[2][j][1] is None: j += 1
                    return self.run_block(c, x[2][j][1], f)
            if x[3] is not None: self.run_block(c, x[3], f)
        elif o == "body":
            b, g = f.body
            for p, e in zip(b[0], [self.ev(c, e, f) for e in x[1]]): g.v[p] = e
            self.run_block(c, b[1], g)
        elif o == "call": self.call(c, x[1], x[2], x[3], x[4], f)
        elif o == "ret": raise Ret(rem(self.ev(c, x[1], f), 1000) if x[1] is not None else None)
        elif o == "defer": defers.append(x[1])
        elif o == "swp":
            a, b = self.ev(c, x[1], f), self.ev(c, x[2], f)
            self.assign(x[1][1], f, b); self.assign(x[2][1], f, a)
        elif o == "twice":
            for j in (1, 2, 1): self.ev(c, x[j], f)
        elif o == "ctv":
            v = self.ev(c, x[1], f)
            for _ in range(x[2]): v += self.ev(c, x[3], f)
            f.ct["$cv"] = v
            self.W.append(f"cv={v}")

    def valid(self, c):
        try: return "too long" not in self.emit(0, c)[2]
        except Exception: return False

    def nontrivial(self, c):
        return len(self.emit(0, c)[2]) >= 8 and any(x[0] == "call" for x in c["st"])

    def labels(self, c):
        t = repr(c)
        for k in ("$if", "$for", "$foreach", "$switch", "tsw", "body", "defer", "swp", "twice", "rec", "ctv", "vx"):
            if f"['{k}'" in t: yield k
        for m in c["macros"]:
            for p in m["ps"]: yield "param " + p[0]
            if m["body"]: yield "trailing body"


# name -> (identity, size, bits, signed); the aliases are the same type, the typedef is another one
GT = {"char": ("char", 1, 8, 0), "ichar": ("ichar", 1, 8, 1), "short": ("short", 2, 16, 1), "int": ("int", 4, 32, 1), "uint": ("uint", 4, 32, 0), "long": ("long", 8, 64, 1), "ulong": ("ulong", 8, 64, 0),
      "MyInt": ("int", 4, 32, 1), "CInt": ("int", 4, 32, 1), "Dint": ("Dint", 4, 32, 1), "isz": ("long", 8, 64, 1), "usz": ("ulong", 8, 64, 0), "MyChar": ("char", 1, 8, 0)}
GPRE = pf.PRE + """alias MyInt = int;
alias CInt = MyInt;
alias MyChar = char;
typedef Dint = int;
module g{Type, NUM};
struct Box { Type[NUM + 1] a; char tag; }
int counter;
tlocal int tcounter;
const long BIG = NUM * 3 + (long)Type.sizeof;
alias Mine = Box;
enum Kind : char { KA, KB }
Kind kind;
fn int bump(int by) { counter += by; return counter; }
fn int peek() { static int n; n += NUM; return n; }
fn void Box.fill(&self, long v) { foreach (i, &x : self.a) *x = (Type)(v + (long)i); }
fn long Box.sum(&self) { long r = 0; foreach (x : self.a) r += (long)x; return r; }
fn long mark(long x)
{
	$switch Type:
		$case char:
			return x * 2 + NUM;
		$case int:
			return x * 3 + NUM;
		$default:
			$if Type.sizeof > 4: return x * 5 + NUM; $else return x * 7 + NUM; $endif
	$endswitch
}
macro long @mac(#x) { var y = #x; return (long)(Type)y + BIG; }
macro bool @is(#x) => $typeof(#x).typeid == Type.typeid;
fn typeid tid() => Type.typeid;
struct Node { Type v; Node* next; }
fn long chain(long n)
{
	Node[4] a;
	for (int i = 0; i < 3; i++) { a[i].next = &a[i + 1]; a[i].v = (Type)(n + i); }
	long r = 0;
	for (Node* p = &a[0]; p; p = p.next) r = r * 3 + (long)p.v;
	return r;
}
module h{Ta, Tb};
import g;
struct Pair { g::Box{Ta, 1} a; g::Box{Tb, 2} b; }
fn long both(long v) { Pair p; p.a.fill(v); p.b.fill(v + 1); return p.a.sum() * 1000 + p.b.sum(); }
fn int bumpa(int by) => g::bump{Ta, 2}(by);
fn int bumpb(int by) => g::bump{Tb, 2}(by);
alias Fn = fn Ta(Tb);
fn Ta conv(Tb x) => (Ta)x;
fn long call(long x) { Fn f = &conv; return (long)f((Tb)x); }
module other;
import g, h;
"""
GMAIN = """module t;
import g, h, other;
"""


class Generics(pf.PF):
    name = "generics"
    quick, thorough = 1500, 30000
    levels = [("-O0",), ("-O2", "--safe=no"), ("-O0", "--safe=no", "-g0"), ("-O1",)]
    batch = 12

    def gen(self, s):
        inst = [[s.choice(sorted(GT)), s.int(0, 4)] for _ in range(s.int(2, 5))]
        if s.bool():
            t, n = inst[0]
            inst.append([s.choice([x for x in sorted(GT) if GT[x][0] == GT[t][0]]), n])
        ops = []
        for _ in range(s.int(3, 16)):
            ops.append([s.choice(["bump", "bump", "bump", "peek", "box", "mark", "mac", "is", "tid", "chain", "size", "big", "same", "kind", "hboth", "hbump", "hcall", "tl"]), s.draw(len(inst) - 1), s.draw(len(inst) - 1), s.int(-300, 300), s.draw(2)])
        return {"inst": inst, "ops": ops, "level": s.draw(len(self.levels) - 1)}

    def valid(self, c): return all(o[1] < len(c["inst"]) and o[2] < len(c["inst"]) for o in c["ops"])
    def nontrivial(self, c): return len(c["inst"]) > 2 and len(c["ops"]) > 4
    def labels(self, c):
        for o in c["ops"]: yield o[0]

    def run(self, cases):
        # The instances share state, so each case is a program of its own.
        res = []
        for c in cases:
            lv = self.level(c)
            res += [r and f"{' '.join(lv)}: {r}" for r in c3.batch_program([c], self.make, self.check, flags=lv)]
        return res

    def make(self, cs):
        d, b, w = self.emit(0, cs[0])
        pre = GPRE.replace("module t;\n", "module t;\nimport g, h, other;\n", 1).replace("module g{", d[1] + "module g{", 1)
        pre = pre.replace("import g, h;\n", "import g, h, t;\n")
        return pre + d[0] + "module t;\nimport g, h, other;\n" + f'fn int main()\n{{\n\tprintf("#0\\n");\n{b}\n\tprintf("#end\\n");\n\treturn 0;\n}}\n'

    def emit(self, k, c):
        wr = lambda v, t: wrap64((lambda b, sg: (v & (1 << b) - 1) - (1 << b if sg and v >> b - 1 & 1 else 0))(GT[t][2], GT[t][3]))
        O, A, b, w = [], [], [], []
        cnt, pk, tl, kd = {}, {}, {}, {}
        for j, (op, i, i2, v, how) in enumerate(c["ops"]):
            (t, n), (t2, n2) = c["inst"][i], c["inst"][i2]
            idt, key = GT[t][0], (GT[t][0], n)
            N = [str(n), f"1 + {n} - 1", f"{n}"][how]
            q = lambda f: f"g::{f}{{{t}, {N}}}"
            if op in ("bump", "tl", "peek"):
                if op == "bump":
                    call = f"{q('bump')}({v})"
                    cnt[key] = r = cnt.get(key, 0) + v
                elif op == "peek":
                    call = f"{q('peek')}()"
                    pk[key] = r = pk.get(key, 0) + n
                else:
                    call = f"({q('tcounter')} += {v})"
                    tl[key] = r = tl.get(key, 0) + v
                if how == 1 and op != "tl":
                    A.append(f"alias al{j} = {q(op)};\n"); call = call.replace(q(op), f"al{j}")
                if how == 2:
                    o = f"fn int o{j}() => {call};\n"
                    for x in ("MyInt", "CInt", "Dint", "MyChar"): o = o.replace("{" + x + ",", "{" + "t::" * 0 + x + ",")
                    O.append(o); call = f"other::o{j}()"
                b.append(f'\tpl("{op}", {call});'); w.append(f"{op}={r}")
            elif op == "box":
                X = q("Box") if how != 1 else q("Mine")
                b.append(f"\t{X} b{j}; b{j}.fill({v}); pl(\"box\", b{j}.sum());")
                w.append(f"box={sum(wr(v + i, t) for i in range(n + 1))}")
            elif op == "mark":
                b.append(f'\tpl("mark", {q("mark")}({v}));')
                w.append(f"mark={v * (2 if idt == 'char' else 3 if idt == 'int' else 5 if GT[t][1] > 4 else 7) + n}")
            elif op == "mac":
                b.append(f'\tlong y{j} = {v}; pl("mac", {q("@mac")}(y{j}));')
                w.append(f"mac={wr(v, t) + n * 3 + GT[t][1]}")
            elif op == "is":
                b.append(f'\t{t2} z{j}; pl("is", {q("@is")}(z{j}) ? 1 : 0);')
                w.append(f"is={int(GT[t2][0] == idt)}")
            elif op == "tid":
                b.append(f'\tpl("tid", ({q("tid")}() == {t2}.typeid) ? 1 : 0);')
                w.append(f"tid={int(GT[t2][0] == idt)}")
            elif op == "chain":
                r = 0
                for x in (v, v + 1, v + 2, None): r = r * 3 + (wr(x, t) if x is not None else 0)
                b.append(f'\tpl("chain", {q("chain")}({v}));'); w.append(f"chain={wrap64(r)}")
            elif op == "size":
                sz = GT[t][1]
                tot = sz * (n + 1) + 1
                b.append(f'\tpl("size", {q("Box")}.sizeof);'); w.append(f"size={-(-tot // sz) * sz}")
            elif op == "big":
                b.append(f'\tpl("big", {q("BIG")});'); w.append(f"big={n * 3 + GT[t][1]}")
            elif op == "same":
                b.append(f'\tpl("same", ({q("Box")}.typeid == g::{"Box" if how else "Mine"}{{{t2}, {n2}}}.typeid) ? 1 : 0);')
                w.append(f"same={int(key == (GT[t2][0], n2))}")
            elif op == "kind":
                b.append(f'\t{q("kind")} = KB; pl("kind", g::kind{{{t2}, {n2}}}.ordinal);')
                kd[key] = 1
                w.append(f"kind={kd.get((GT[t2][0], n2), 0)}")
            elif op == "hboth":
                b.append(f'\tpl("both", h::both{{{t}, {t2}}}({v}));')
                w.append(f"both={sum(wr(v + i, t) for i in range(2)) * 1000 + sum(wr(v + 1 + i, t2) for i in range(3))}")
            elif op == "hbump":
                f, tt = ("a", t) if how else ("b", t2)
                kk = (GT[tt][0], 2)
                cnt[kk] = cnt.get(kk, 0) + v
                b.append(f'\tpl("hb", h::bump{f}{{{t}, {t2}}}({v}));'); w.append(f"hb={cnt[kk]}")
            else:
                b.append(f'\tpl("conv", h::call{{{t}, {t2}}}({v}));'); w.append(f"conv={wrap64(wr(wr(v, t2), t))}")
        return ["".join(O), "".join(A)], "\n".join(b), w


def wrap64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


class C15(pbt.Check):
    id = "C15"
    rule = "macros: at least 8 observed effects and a macro call as a statement; generics: at least 3 instances and 5 uses"
    families = [Macros(), Generics()]


CHECK = C15()
