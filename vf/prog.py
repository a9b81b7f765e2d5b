"""Structured C3 programs over ints: generation, C3 text and a reference interpreter.

A program is JSON-able: {"globals": {name: value}, "arrays": {name: [ints]}, "funcs": [...], "calls": [[func, args]...]}.
Expressions and statements are lists whose head names the construct; see Interp for their meaning.
"""
NF = 3          # declared faults FA, FB, FC


class Fault(Exception):
    def __init__(self, f): self.f = f


class Budget(Exception): pass


class Break(Exception):
    def __init__(self, label): self.label = label


class Continue(Break): pass


class NextCase(Exception):
    def __init__(self, label, to): self.label, self.to = label, to


class Return(Exception):
    def __init__(self, v, fault=None): self.v, self.fault = v, fault


def w32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def isopt(e):
    """Whether an expression is an optional one."""
    if not isinstance(e, list):
        return False
    k = e[0]
    if k in ("F", "ov"): return True
    if k == "call": return e[3] or any(isopt(a) for a in e[2])
    if k in ("!", "ok", "ct", "!!"): return False
    if k == "??": return isopt(e[2])
    return any(isopt(x) for x in e[1:])


ISBOOL = {"k", "l", "n", "ok", "b1"}


def isbool(e):
    return e[0] in ISBOOL or e[0] == "tr" and isbool(e[2])


class Interp:
    def __init__(self, prog, budget=2500):
        self.p = prog
        self.funcs = {f["name"]: f for f in prog["funcs"]}
        self.out = []
        self.left = budget
        self.g = dict(prog["globals"])
        self.arr = {n: list(v) for n, v in prog["arrays"].items()}
        self.statics = {}
        self.covered = set()

    def run(self):
        for f, args in self.p["calls"]:
            try:
                v = self.call(f, args)
                self.out.append(f"= {v if v is not None else 0}")
            except Fault as x:
                self.out.append(f"! {x.f + 1}")
        for n in self.g: self.out.append(f"g {self.g[n]}")
        for n in self.arr: self.out += [f"a {v}" for v in self.arr[n]]
        return self.out

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise Budget

    def call(self, name, args):
        self.tick()
        f = self.funcs[name]
        fr = Frame(self, f, args)
        try:
            fr.block(f["body"])
            return None
        except Return as r:
            if r.fault is not None:
                raise Fault(r.fault)
            return r.v


class Frame:
    def __init__(self, it, f, args):
        self.it, self.f = it, f
        self.scopes = [dict(zip(f["params"], args))]
        self.st = it.statics.setdefault(f["name"], {})
        self.defers = []

    # variables
    def find(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s
        if n in self.st: return self.st
        return self.it.g

    def get(self, n):
        v = self.find(n)[n]
        if isinstance(v, Ref):
            return v.get()
        return v

    def put(self, n, v):
        s = self.find(n)
        if isinstance(s[n], Ref): s[n].put(v)
        else: s[n] = v

    # expressions
    def ev(self, e):
        k = e[0]
        it = self.it
        if k == "c": return e[1]
        if k in ("v", "ov"):
            v = self.get(e[1])
            if isinstance(v, Bad): raise Fault(v.f)
            return v
        if k == "b":
            a = self.ev(e[2]); b = self.ev(e[3])
            return arith(e[1], a, b)
        if k == "u":
            a = self.ev(e[2])
            return w32(-a) if e[1] == "-" else w32(~a)
        if k == "k":
            a = self.ev(e[2]); b = self.ev(e[3])
            return int({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[e[1]])
        if k == "l":
            a = self.ev(e[2])
            if e[1] == "&&": return self.ev(e[3]) if a else 0
            return 1 if a else self.ev(e[3])
        if k == "n": return int(not self.ev(e[1]))
        if k == "b1": return e[1]
        if k == "t": return self.ev(e[2]) if self.ev(e[1]) else self.ev(e[3])
        if k == "el":       # a ?: b
            a = self.ev(e[1])
            return a if a else self.ev(e[2])
        if k == "tr":
            v = self.ev(e[2])
            it.tick()
            it.out.append(f"{e[1]} {v}")
            return v
        if k == "ix": return it.arr[e[1]][self.ev(e[2]) & e[3]]
        if k == "call":
            return it.call(e[1], [self.ev(a) for a in e[2]]) or 0
        if k == "as":
            v = self.ev(e[3])
            if e[2] != "=": v = arith(e[2][:-1], self.get(e[1]), v)
            self.put(e[1], v)
            return v
        if k == "pp":
            o = self.get(e[1])
            n = w32(o + (1 if e[2] == "++" else -1))
            self.put(e[1], n)
            return n if e[3] else o
        # optionals
        if k == "F": raise Fault(e[1])
        if k == "!":
            try: return self.ev(e[1])
            except Fault as x: raise Return(None, x.f)
        if k == "!!": return self.ev(e[1])
        if k == "??":
            try: return self.ev(e[1])
            except Fault: return self.ev(e[2])
        if k == "ok":
            try:
                self.ev(e[1])
                return 1
            except Fault: return 0
        if k == "ct":
            try:
                self.ev(e[1])
                return 0
            except Fault as x: return x.f + 1
        raise KeyError(k)

    # statements
    def block(self, body, pre=None):
        """Runs a scope; deferred statements run on every way out, in reverse order."""
        self.scopes.append(dict(pre or {}))
        ds = []
        self.defers.append(ds)
        bad = None
        try:
            try:
                for s in body: self.stmt(s)
            except Return as r:
                bad = r.fault
                raise
        except (Break, NextCase, Return):
            self.rundefers(ds, bad)
            raise
        else:
            self.rundefers(ds, None)
        finally:
            self.defers.pop()
            self.scopes.pop()

    def rundefers(self, ds, bad):
        for kind, s, var in reversed(ds):
            if kind == "try" and bad is not None: continue
            if kind == "catch" and bad is None: continue
            self.it.covered.add("defer run" if kind == "" else f"defer {kind} run")
            self.block(s, {var: bad + 1} if var else None)

    def cond(self, c):
        """-> (truth, variables declared by the condition)"""
        if c[0] == "try":        # if (try x = e && try y = f && cond)
            vs = {}
            self.scopes.append(vs)
            try:
                for name, e in c[1]:
                    if name is None:
                        if not self.ev(e): return False, {}
                    else:
                        vs[name] = self.ev(e)
                return True, vs
            except Fault:
                return False, {}
            finally:
                self.scopes.pop()
        if c[0] == "catch":      # if (catch x = e, f)
            for e in c[2]:
                try: self.ev(e)
                except Fault as x: return True, ({c[1]: x.f + 1} if c[1] else {})
            return False, {}
        return bool(self.ev(c)), {}

    def stmt(self, s):
        it = self.it
        it.tick()
        k = s[0]
        it.covered.add(k)
        if k == "tr":
            v = self.ev(s[2])
            it.out.append(f"{s[1]} {v}")
        elif k == "expr": self.ev(s[1])
        elif k == "void":
            try: self.ev(s[1])
            except Fault: pass
        elif k == "let":
            v = self.ev(s[2]) if s[2] is not None else 0
            self.scopes[-1][s[1]] = v
        elif k == "static":
            self.st.setdefault(s[1], s[2])
        elif k == "olet":
            try: v = self.ev(s[2])
            except Fault as x: v = Bad(x.f)
            self.scopes[-1][s[1]] = v
        elif k == "oset":
            try: v = self.ev(s[2])
            except Fault as x: v = Bad(x.f)
            self.put(s[1], v)
        elif k == "set":
            v = self.ev(s[3])
            if s[2] != "=": v = arith(s[2][:-1], self.get(s[1]), v)
            self.put(s[1], v)
        elif k == "seta":
            i = self.ev(s[2]) & s[3]
            a = it.arr[s[1]]
            v = self.ev(s[5])
            a[i] = v if s[4] == "=" else arith(s[4][:-1], a[i], v)
        elif k == "inc":
            self.put(s[1], w32(self.get(s[1]) + (1 if s[2] == "++" else -1)))
        elif k == "block": self.block(s[1])
        elif k == "defer": self.defers[-1].append((s[1], s[2], s[3]))
        elif k == "if":
            ok, vs = self.cond(s[2])
            try:
                if ok: self.block(s[3], vs)
                elif s[4] is not None: self.block(s[4])
            except Break as b:
                if isinstance(b, Continue) or b.label is None or b.label != s[1]: raise
        elif k == "while":
            while True:
                ok, vs = self.cond(s[2])
                if not ok or self.iterate(s[1], s[3], vs): break
        elif k == "do":
            while True:
                if self.iterate(s[1], s[2], {}): break
                if not self.cond(s[3])[0]: break
        elif k == "for":
            self.scopes.append({})
            try:
                for x in s[2]: self.stmt(x)
                while s[3] is None or self.ev(s[3]):
                    if self.iterate(s[1], s[5], {}): break
                    for x in s[4]: self.stmt(x)
            finally:
                self.scopes.pop()
        elif k == "foreach":
            _, label, rev, iname, vname, ref, (aname, lo, hi), body = s
            a = it.arr[aname]
            r = range(lo, hi + 1)
            for j in (reversed(r) if rev else r):
                vs = {vname: Ref(a, j) if ref else a[j]}
                if iname: vs[iname] = j - lo
                if self.iterate(label, body, vs): break
        elif k == "switch": self.switch(s)
        elif k == "break": raise Break(s[1])
        elif k == "continue": raise Continue(s[1])
        elif k == "nextcase":
            to = s[2]
            raise NextCase(s[1], to if to in (None, "default") else ("v", self.ev(to)))
        elif k == "return":
            if s[1] is None: raise Return(None)
            try: v = self.ev(s[1])
            except Fault as x: raise Return(None, x.f)
            raise Return(v)
        elif k == "unwrap":      # if (catch x = ov) { ... jumps }; ov is a plain value afterwards
            v = self.get(s[1])
            if isinstance(v, Bad): self.block(s[3], {s[2]: v.f + 1} if s[2] else None)
        else: raise KeyError(k)

    def iterate(self, label, body, vs):
        """One loop iteration; True to leave the loop."""
        self.it.tick()
        try:
            self.block(body, vs)
        except Break as b:
            if b.label is not None and b.label != label: raise
            return not isinstance(b, Continue)
        return False

    def switch(self, s):
        _, label, subj, cases = s
        if subj is None:
            i = next((i for i, c in enumerate(cases) if c[0] == "if" and self.ev(c[1])), None)
        else:
            i = self.select(cases, self.ev(subj))
        if i is None:
            i = next((i for i, c in enumerate(cases) if c[0] == "default"), None)
        while i is not None:
            while i < len(cases) and cases[i][-1] is None:       # no body: falls to the next
                i += 1
            if i >= len(cases): return
            try:
                self.it.tick()
                self.block(cases[i][-1])
                return
            except NextCase as n:
                if n.label is not None and n.label != label: raise
                if n.to is None: i += 1
                elif n.to == "default": i = next(i for i, c in enumerate(cases) if c[0] == "default")
                else:
                    i = self.select(cases, n.to[1])
                    if i is None: i = next((i for i, c in enumerate(cases) if c[0] == "default"), None)
            except Break as b:
                if isinstance(b, Continue) or (b.label is not None and b.label != label): raise
                return

    @staticmethod
    def select(cases, v):
        return next((i for i, c in enumerate(cases) if c[0] == "val" and c[1] <= v <= c[2]), None)


class Ref:
    def __init__(self, a, i): self.a, self.i = a, i
    def get(self): return self.a[self.i]
    def put(self, v): self.a[self.i] = v


class Bad:
    def __init__(self, f): self.f = f


def arith(op, a, b):
    if op == "+": return w32(a + b)
    if op == "-": return w32(a - b)
    if op == "*": return w32(a * b)
    if op == "&": return a & b
    if op == "|": return a | b
    if op == "^": return a ^ b
    if op in "/%":
        if b == 0 or (b == -1 and a == -(1 << 31)): raise Budget
        q = tdiv(a, b)
        return w32(q if op == "/" else a - b * q)
    if op == "<<": return w32(a << (b & 31))
    if op == ">>": return a >> (b & 31)
    raise KeyError(op)


# ---------------------------------------------------------------- text

class Text:
    """pre: prefix of the program's global names."""

    def __init__(self, prog, pre=""):
        self.p, self.pre = prog, pre
        self.glob = set(prog["globals"]) | set(prog["arrays"]) | {f["name"] for f in prog["funcs"]}

    def nm(self, n):
        return self.pre + n if n in self.glob else n

    def E(self, e):
        k = e[0]
        if k == "c": return str(e[1]) if e[1] >= 0 else (f"({e[1]})" if e[1] > -(1 << 31) else "(-2147483647 - 1)")
        if k in ("v", "ov"): return self.nm(e[1])
        if k in ("b", "k", "l"):
            if e[0] == "b" and e[1] in ("<<", ">>") and e[3][0] != "c": return f"({self.E(e[2])} {e[1]} ({self.E(e[3])} & 31))"
            return f"({self.E(e[2])} {e[1]} {self.E(e[3])})"
        if k == "u": return f"({e[1]}{self.E(e[2])})"
        if k == "n": return f"(!{self.E(e[1])})"
        if k == "b1": return "true" if e[1] else "false"
        if k == "t": return f"({self.E(e[1])} ? {self.E(e[2])} : {self.E(e[3])})"
        if k == "el": return f"({self.E(e[1])} ?: {self.E(e[2])})"
        if k == "tr": return f"{'trb' if isbool(e[2]) else 'tr'}({e[1]}, {self.E(e[2])})"
        if k == "ix": return f"{self.nm(e[1])}[{self.E(e[2])} & {e[3]}]"
        if k == "call": return f"{self.nm(e[1])}({', '.join(self.E(a) for a in e[2])})"
        if k == "as": return f"({self.nm(e[1])} {e[2]} {self.E(e[3])})"
        if k == "pp": return f"({e[2]}{self.nm(e[1])})" if e[3] else f"({self.nm(e[1])}{e[2]})"
        if k == "F": return f"F{'ABC'[e[1]]}?"
        if k == "!": return f"{self.par(e[1])}!"
        if k == "!!": return f"{self.par(e[1])}!!"
        if k == "??": return f"({self.E(e[1])} ?? {self.E(e[2])})"
        if k == "ok": return f"@okk({self.E(e[1])})"
        if k == "ct": return f"fi(@caught({self.E(e[1])}))"
        raise KeyError(k)

    def par(self, e):
        t = self.E(e)
        return t if t.endswith(")") and t[0] != "(" or (t[0] == "(") else f"({t})"

    def cond(self, c):
        if c[0] == "try": return " && ".join(f"try {n} = {self.E(e)}" if n else self.E(e) for n, e in c[1])
        if c[0] == "catch": return "catch " + (f"{c[1]}_f = " if c[1] else "") + ", ".join(self.E(e) for e in c[2])
        return self.E(c)

    def B(self, body, ind, head=()):
        t = "\t" * ind
        return "{\n" + "".join(f"{t}\t{h}\n" for h in head) + "".join(self.S(s, ind + 1) for s in body) + t + "}"

    def heads(self, c):
        return [f"int {c[1]} = fi({c[1]}_f);"] if c[0] == "catch" and c[1] else []

    def S(self, s, ind):
        t = "\t" * ind
        k = s[0]
        E = self.E
        lb = lambda l: f" {l}:" if l else ""
        if k == "tr": x = f"{'trb' if isbool(s[2]) else 'tr'}({s[1]}, {E(s[2])});"
        elif k == "expr": x = E(s[1]) + ";"
        elif k == "void": x = f"(void){E(s[1])};"
        elif k == "let": x = f"int {s[1]};" if s[2] is None else f"int {s[1]} = {E(s[2])};"
        elif k == "static": x = f"static int {s[1]} = {s[2]};"
        elif k == "olet": x = f"int? {s[1]} = {E(s[2])};"
        elif k in ("oset",): x = f"{s[1]} = {E(s[2])};"
        elif k == "set": x = f"{self.nm(s[1])} {s[2]} {E(s[3])};"
        elif k == "seta": x = f"{self.nm(s[1])}[{E(s[2])} & {s[3]}] {s[4]} {E(s[5])};"
        elif k == "inc": x = f"{self.nm(s[1])}{s[2]};"
        elif k == "block": x = self.B(s[1], ind)
        elif k == "defer":
            hd = [f"int {s[3]} = fi({s[3]}_f);"] if s[3] else []
            kw = {"": "defer", "try": "defer try", "catch": f"defer (catch {s[3]}_f)" if s[3] else "defer catch"}[s[1]]
            if len(s[2]) == 1 and not hd and s[2][0][0] in ("tr", "set", "inc"): x = f"{kw} {self.S(s[2][0], 0).strip()}"
            else: x = f"{kw}\n{t}{self.B(s[2], ind, hd)}"
        elif k == "if":
            if s[4] is None and len(s[3]) == 1 and s[1] is None and s[3][0][0] in ("tr", "set", "inc", "break", "continue", "return", "nextcase") and not self.heads(s[2]):
                x = f"if ({self.cond(s[2])}) {self.S(s[3][0], 0).strip()}"
            else:
                x = f"if{lb(s[1])} ({self.cond(s[2])})\n{t}{self.B(s[3], ind, self.heads(s[2]))}"
                if s[4] is not None:
                    if len(s[4]) == 1 and s[4][0][0] == "if" and s[4][0][1] is None:
                        x += f"\n{t}else " + self.S(s[4][0], ind).lstrip().rstrip("\n")
                        if not x.endswith("}"): x = x  # one-line if after else
                    else: x += f"\n{t}else\n{t}{self.B(s[4], ind)}"
        elif k == "while": x = f"while{lb(s[1])} ({self.cond(s[2])})\n{t}{self.B(s[3], ind, self.heads(s[2]))}"
        elif k == "do": x = f"do{lb(s[1])}\n{t}{self.B(s[2], ind)}\n{t}while ({self.cond(s[3])});"
        elif k == "for":
            ini = ", ".join(f"int {q[1]} = {E(q[2])}" if q[0] == "let" else self.S(q, 0).strip()[:-1] for j, q in enumerate(s[2]))
            stp = ", ".join(self.S(q, 0).strip()[:-1] for q in s[4])
            x = f"for{lb(s[1])} ({ini}; {E(s[3]) if s[3] is not None else ''}; {stp})\n{t}{self.B(s[5], ind)}"
        elif k == "foreach":
            _, l, rev, i, v, ref, (a, lo, hi), body = s
            n = len(self.p["arrays"][a])
            over = self.nm(a) if (lo, hi) == (0, n - 1) else f"{self.nm(a)}[{lo}..{hi}]"
            hd = []
            if i: hd.append(f"int {i} = (int){i}_i;")
            vn = v + "_p" if ref else v
            body2 = self.B(self.deref(body, v) if ref else body, ind, hd)
            x = f"{'foreach_r' if rev else 'foreach'}{lb(l)} ({f'{i}_i, ' if i else ''}{'&' if ref else ''}{vn} : {over})\n{t}{body2}"
        elif k == "switch":
            x = f"switch{lb(s[1])}{'' if s[2] is None else f' ({E(s[2])})'}{' @jump' if len(s) > 4 and s[4] else ''}\n{t}{{\n"
            for c in s[3]:
                if c[0] == "default": x += f"{t}\tdefault:\n"
                elif c[0] == "if": x += f"{t}\tcase {E(c[1])}:\n"
                else: x += f"{t}\tcase {E(['c', c[1]])}{'' if c[1] == c[2] else ' .. ' + E(['c', c[2]])}:\n"
                for q in c[-1] or []: x += self.S(q, ind + 2)
                if c[-1] == []: x += f"{t}\t\tbreak;\n"
            x += t + "}"
        elif k in ("break", "continue"): x = f"{k}{' ' + s[1] if s[1] else ''};"
        elif k == "nextcase":
            to = "" if s[2] is None else "default" if s[2] == "default" else E(s[2])
            x = "nextcase" + (f" {s[1]}:" if s[1] else "") + (" " + to if to else "") + ";"
        elif k == "return": x = "return;" if s[1] is None else f"return {E(s[1])};"
        elif k == "unwrap":
            hd = [f"int {s[2]} = fi({s[2]}_f);"] if s[2] else []
            x = f"if (catch {s[2] + '_f = ' if s[2] else ''}{s[1]})\n{t}{self.B(s[3], ind, hd)}"
        else: raise KeyError(k)
        return t + x + "\n"

    def deref(self, x, v):
        """The loop variable of foreach (&v : ...) is a pointer: uses become *v."""
        if isinstance(x, list):
            if x and x[0] in ("v", "ov", "set", "inc", "as", "pp") and len(x) > 1 and x[1] == v:
                return [x[0], f"(*{v}_p)"] + [self.deref(y, v) for y in x[2:]]
            return [self.deref(y, v) for y in x]
        return x

    def func(self, f):
        ps = ", ".join(f"int {p}" for p in f["params"])
        attr = " @noinline" if f.get("noinline") else " @inline" if f.get("inline") else ""
        return f"fn {f['ret']} {self.nm(f['name'])}({ps}){attr}\n{self.B(f['body'], 0)}\n"

    def decls(self):
        o = "".join(f"int {self.nm(n)} = {self.E(['c', v])};\n" for n, v in self.p["globals"].items())
        return o + "".join(f"int[{len(v)}] {self.nm(n)} = {{ {', '.join(self.E(['c', x]) for x in v)} }};\n" for n, v in self.p["arrays"].items())

    def driver(self):
        o = ""
        byname = {f["name"]: f for f in self.p["funcs"]}
        for f, args in self.p["calls"]:
            ret = byname[f]["ret"]
            c = f"{self.nm(f)}({', '.join(self.E(['c', a]) for a in args)})"
            if ret == "int": o += f"\tprintf(\"= %d\\n\", {c});\n"
            elif ret == "void": o += f"\t{c}; printf(\"= 0\\n\");\n"
            elif ret == "int?": o += f"\tif (catch f = {c}) {{ printf(\"! %d\\n\", fi(f)); }} else {{ printf(\"= %d\\n\", again); }}\n".replace("again", "last_ok")
            else: o += f"\tif (catch f = {c}) {{ printf(\"! %d\\n\", fi(f)); }} else {{ printf(\"= 0\\n\"); }}\n"
        return o


PRE = """extern fn int printf(char* f, ...);
faultdef FA, FB, FC;
fn int tr(int k, int v) @noinline { printf("%d %d\\n", k, v); return v; }
fn bool trb(int k, bool v) @noinline { printf("%d %d\\n", k, (int)v); return v; }
fn int fi(fault f) { if (f == FA) return 1; if (f == FB) return 2; if (f == FC) return 3; return 0; }
macro bool @okk(#e) { if (catch #e) return false; return true; }
macro fault @caught(#e) { if (catch f = #e) return f; return (fault){}; }
"""


def source(progs, mod="t"):
    out = [f"module {mod};", PRE]
    main = []
    for i, p in enumerate(progs):
        t = Text(p, f"c{i}_")
        out.append(t.decls())
        out += [t.func(f) for f in p["funcs"]]
        main.append(f"fn void run{i}()\n{{\n" + driver(t) + "}\n")
    out += main
    out.append("fn int main()\n{\n" + "".join(f"\tprintf(\"#{i}\\n\"); run{i}();\n" for i in range(len(progs))) + "\treturn 0;\n}\n")
    return "\n".join(out)


def driver(t):
    o = ""
    byname = {f["name"]: f for f in t.p["funcs"]}
    for j, (f, args) in enumerate(t.p["calls"]):
        ret = byname[f]["ret"]
        c = f"{t.nm(f)}({', '.join(t.E(['c', a]) for a in args)})"
        if ret == "int": o += f"\tprintf(\"= %d\\n\", {c});\n"
        elif ret == "void": o += f"\t{c}; printf(\"= 0\\n\");\n"
        elif ret == "int?": o += f"\tint? r{j} = {c};\n\tif (catch f = r{j}) {{ printf(\"! %d\\n\", fi(f)); }} else {{ printf(\"= %d\\n\", r{j}); }}\n"
        else: o += f"\tif (catch f = {c}) {{ printf(\"! %d\\n\", fi(f)); }} else {{ printf(\"= 0\\n\"); }}\n"
    for n in t.p["globals"]: o += f"\tprintf(\"g %d\\n\", {t.nm(n)});\n"
    for n in t.p["arrays"]: o += f"\tforeach (x : {t.nm(n)}) printf(\"a %d\\n\", x);\n"
    return o


def expected(p, budget=2500):
    """Output lines, and the constructs that ran; None when the program does too much."""
    it = Interp(p, budget)
    try:
        return it.run(), it.covered
    except (Budget, RecursionError):
        return None, set()


# ---------------------------------------------------------------- generation

def effects(e):
    """Whether evaluating e may change a variable."""
    return isinstance(e, list) and (e[:1] and e[0] in ("call", "as", "pp") or any(effects(x) for x in e))


def steady(args):
    """Arguments whose values do not depend on when a bare variable among them is read."""
    if sum(map(effects, args)) == 0: return args
    return [["b", "+", a, ["c", 0]] if a[0] in ("v", "ov", "ix") else a for a in args]


class Gen:
    """opt: optionals and faults; pp: side effects inside expressions."""

    def __init__(self, s, opt=False, pp=True, depth=3, size=28):
        self.s, self.opt, self.pp, self.depth, self.size = s, opt, pp, depth, size
        self.k = 0
        self.labels = 0

    def program(self):
        s = self.s
        self.globals = {f"g{i}": s.int(-5, 30) for i in range(s.int(1, 3))}
        self.arrays = {f"a{i}": [s.int(-9, 20) for _ in range(1 << s.int(1, 3))] for i in range(s.int(1, 2))}
        self.funcs = []
        for i in range(s.int(1, 3)):
            self.funcs.append(self.func(i))
        calls = [[self.funcs[-1]["name"], [s.int(-3, 9) for _ in self.funcs[-1]["params"]]] for _ in range(s.int(1, 4))]
        return {"globals": self.globals, "arrays": self.arrays, "funcs": self.funcs, "calls": calls}

    def func(self, i):
        s = self.s
        self.me = f"f{i}"
        ret = s.choice(["int", "int", "int", "void"] if not self.opt else ["int?", "int?", "int?", "void?", "int", "void"])
        self.ret = ret
        self.params = [f"p{j}" for j in range(s.int(0, 3))]
        self.vars = [list(self.params)]       # scopes of plain variables
        self.ro = set()                       # loop counters: not to be changed
        self.ovars = [[]]                     # optional variables
        self.flow = []                        # enclosing breakable constructs
        self.nvar = 0
        self.left = self.size
        self.indefer = 0
        self.rec = bool(self.params) and s.bool(1, 4)
        body = self.body(self.depth, top=True)
        if ret in ("int", "int?"):
            body.append(["return", self.expr(2) if ret == "int" else self.oexpr(2)])
        f = {"name": self.me, "params": self.params, "ret": ret, "body": body}
        m = s.draw(3)
        if m == 1: f["noinline"] = True
        if m == 2: f["inline"] = True
        if self.rec and f.get("inline"): del f["inline"]
        return f

    def fresh(self):
        self.nvar += 1
        return f"v{self.nvar}"

    def key(self):
        self.k += 1
        return self.k

    def allvars(self):
        return [v for sc in self.vars for v in sc] + list(self.globals)

    def mutable(self):
        return [v for v in self.allvars() if v not in self.ro]

    # ---- expressions

    def expr(self, d):
        s = self.s
        if d <= 0 or s.bool(1, 5):
            if s.bool(2, 3): return ["v", s.choice(self.allvars())]
            return ["c", s.int(-4, 12)]
        k = s.draw(13)
        if k <= 4: return ["b", s.choice(["+", "-", "*", "&", "|", "^"]), self.expr(d - 1), self.expr(d - 1)]
        if k == 5: return ["b", s.choice(["/", "%"]), self.expr(d - 1), ["c", s.choice([2, 3, 7, -3])]]
        if k == 6: return ["b", s.choice(["<<", ">>"]), self.expr(d - 1), ["c", s.int(0, 6)]]
        if k == 7: return ["t", self.cond(d - 1), self.expr(d - 1), self.expr(d - 1)]
        if k == 8: return ["tr", self.key(), self.expr(d - 1)]
        if k == 9:
            a = s.choice(sorted(self.arrays))
            return ["ix", a, self.expr(d - 1), len(self.arrays[a]) - 1]
        if k == 10:
            c = self.callexpr(d)
            if c: return c
        if k == 11 and self.opt:
            return self.handled(d)
        if k == 12: return ["u", s.choice("-~"), self.expr(d - 1)]
        if k == 13 and self.pp: return ["tr", self.key(), self.expr(d - 1)]
        return ["v", s.choice(self.allvars())]

    def callexpr(self, d, kinds=("int",)):
        s = self.s
        fs = [f for f in self.funcs if f["ret"] in kinds]
        if not fs: return None
        f = s.choice(fs)
        return ["call", f["name"], steady([self.expr(d - 1) for _ in f["params"]]), f["ret"].endswith("?")]

    def cond(self, d):
        s = self.s
        if d <= 0: return ["k", s.choice(["<", "<=", "==", "!=", ">", ">="]), self.expr(0), self.expr(0)]
        k = s.draw(7)
        if k <= 3: return ["k", s.choice(["<", "<=", "==", "!=", ">", ">="]), self.expr(d - 1), self.expr(d - 1)]
        if k == 4: return ["l", s.choice(["&&", "||"]), self.cond(d - 1), self.cond(d - 1)]
        if k == 5: return ["n", self.cond(d - 1)]
        if k == 6: return ["tr", self.key(), self.cond(d - 1)]
        if self.opt: return ["ok", self.oexpr(d - 1, must=True)]
        return ["b1", s.draw(1)] if s.bool(1, 4) else ["l", "&&", self.cond(d - 1), self.cond(d - 1)]

    def oexpr(self, d, must=False):
        """An optional int expression (or maybe a plain one unless `must`)."""
        s = self.s
        if not self.opt: return self.expr(d)
        ov = [v for sc in self.ovars for v in sc]
        k = s.draw(9)
        if d > 0:
            if k == 0: return ["b", s.choice(["+", "-", "*", "^"]), self.oexpr(d - 1, True), self.expr(d - 1)]
            if k == 1: return ["b", s.choice(["+", "-", "*", "^"]), self.expr(d - 1), self.oexpr(d - 1, True)]
            if k == 2: return ["b", s.choice(["+", "-", "&"]), self.oexpr(d - 1, True), self.oexpr(d - 1, True)]
            if k == 3: return ["tr", self.key(), self.oexpr(d - 1, True)]
            if k == 4: return ["??", self.oexpr(d - 1, True), s.choice([["F", s.draw(NF - 1)], self.oexpr(d - 1, True)])]
            if k == 5:
                fs = [f for f in self.funcs if f["ret"] in ("int", "int?") and f["params"]]
                if fs:
                    f = s.choice(fs)
                    j = s.draw(len(f["params"]) - 1)
                    return ["call", f["name"], steady([self.oexpr(d - 1, True) if i == j else self.expr(d - 1) for i in range(len(f["params"]))]), f["ret"] == "int?"]
            if k == 6:
                return ["t", self.vcond(d - 1), self.oexpr(d - 1, True), s.choice([self.expr(d - 1), ["F", s.draw(NF - 1)]])]
        c = self.callexpr(d, ("int?",))
        if c and s.bool(2, 3): return c
        if ov and s.bool(2, 3): return ["ov", s.choice(ov)]
        if not must and s.bool(): return self.expr(d)
        return ["t", self.vcond(d - 1), self.expr(d - 1), ["F", s.draw(NF - 1)]]

    def vcond(self, d):
        """A condition the compiler cannot decide: see the known finding const-ternary-fault."""
        return ["k", self.s.choice(["<", "<=", "==", "!=", ">", ">="]), ["v", self.s.choice(self.allvars())], self.expr(d)]

    def handled(self, d):
        """A plain int made from an optional expression."""
        s = self.s
        k = s.draw(3)
        e = self.oexpr(d - 1, True)
        if k == 0 and self.ret.endswith("?") and not self.indefer: return ["!", e]
        if k == 1: return ["ct", e]
        return ["??", e, self.expr(d - 1)]

    # ---- statements

    def body(self, d, top=False, lo=1, hi=5, jump=True):
        s = self.s
        self.vars.append([])
        self.ovars.append([])
        out = []
        n = s.int(lo, hi + (2 if top else 0))
        for _ in range(n):
            if self.left <= 0: break
            self.left -= 1
            out += self.stmt(d)
        if not top and jump and not self.indefer and s.bool(1, 5):
            j = self.jump()
            if j: out.append(j)
        self.vars.pop()
        self.ovars.pop()
        if not out: out.append(["tr", self.key(), self.expr(1)])
        return out

    def jump(self):
        s = self.s
        opts = []
        lim = self.flow
        loops = [f for f in lim if f["kind"] == "loop"]
        brk = [f for f in lim if f["kind"] in ("loop", "switch")]
        if brk: opts.append(["break", None])
        if loops: opts.append(["continue", None])
        for f in lim:
            if f["label"]:
                opts.append(["break", f["label"]])
                f_used = f
                if f["kind"] == "loop": opts.append(["continue", f["label"]])
        sw = [f for f in lim if f["kind"] == "switch"]
        if sw and sw[-1]["next"]:
            opts.append(["nextcase", None, None])
            opts.append(["nextcase", None, None])
        if sw: opts += self.nexts(sw)
        if not self.nojump_return:
            opts.append(self.ret_stmt())
        if not opts: return None
        return s.choice(opts)

    nojump_return = False

    def nexts(self, sw):
        """Jumps forward to a value, or to the default; only to values beyond the present case, so that switches end."""
        out = []
        f = sw[-1]
        if f.get("later"):
            out.append(["nextcase", None, ["c", self.s.choice(f["later"])]])
        if f.get("default_later"): out.append(["nextcase", None, "default"])
        for g in sw[:-1]:
            if g["label"] and g.get("later"):
                out.append(["nextcase", g["label"], ["c", self.s.choice(g["later"])]])
        return out

    def ret_stmt(self):
        if self.ret in ("void", "void?"):
            if self.ret == "void?" and self.s.bool(): return ["return", ["F", self.s.draw(NF - 1)]]
            return ["return", None]
        if self.ret == "int": return ["return", self.expr(2)]
        return ["return", self.s.choice([["F", self.s.draw(NF - 1)], self.oexpr(2)])]

    def label(self):
        if self.s.bool(1, 3):
            self.labels += 1
            return f"LB{self.labels}"
        return None

    def inner(self, flow, d, pre=(), ro=(), **kw):
        self.vars.append(list(pre))
        self.ro |= set(ro)
        self.flow.append(flow)
        b = self.body(d - 1, **kw)
        self.flow.pop()
        self.vars.pop()
        return b

    def stmt(self, d):
        s = self.s
        simple = d <= 0 or self.left <= 0
        k = s.draw(9 if simple else 24)
        mut = self.mutable()
        if k <= 1: return [["tr", self.key(), self.expr(2)]]
        if k == 2:
            e = self.expr(2) if s.bool(7, 8) else None
            n = self.fresh()
            self.vars[-1].append(n)
            return [["let", n, e]]
        if k == 3 and mut:
            op = s.choice(["=", "+=", "-=", "*=", "^=", "|=", "&="])
            e = self.expr(2)
            return [["set", s.choice(mut), "=" if effects(e) else op, e]]
        if k == 4 and mut: return [["inc", s.choice(mut), s.choice(["++", "--"])]]
        if k == 5:
            a = s.choice(sorted(self.arrays))
            i, e = self.expr(1), self.expr(2)
            return [["seta", a, ["c", 1] if effects(e) else i, len(self.arrays[a]) - 1, "=" if effects(e) else s.choice(["=", "+=", "-=", "^="]), e]]
        if k == 6:
            c = self.callexpr(2, ("int", "void"))
            if c: return [["expr", c] if next(f for f in self.funcs if f["name"] == c[1])["ret"] == "void" else ["tr", self.key(), c]]
            return [["tr", self.key(), self.expr(2)]]
        if k == 7 and self.opt: return self.optstmt(d)
        if k == 8 and self.rec and not self.indefer:
            c = ["call", self.me, [["b", "-", ["v", "p0"], ["c", 1]]] + [self.expr(0) for _ in self.params[1:]], self.ret.endswith("?")]
            b = ["void", c] if self.ret.endswith("?") else ["expr", c] if self.ret == "void" else ["tr", self.key(), c]
            if self.ret == "int?": b = ["tr", self.key(), ["??", c, ["c", -77]]]
            return [["if", None, ["l", "&&", ["k", ">", ["v", "p0"], ["c", 0]], ["k", "<", ["v", "p0"], ["c", 5]]], [b], None]] if "p0" not in mut or True else []
        if k == 9 and not self.indefer and s.bool(1, 2):
            n = self.fresh()
            self.vars[-1].append(n)
            e = self.expr(1)
            return [["static", n, s.int(-3, 9)], ["set", n, "=" if effects(e) else "+=", e]]
        if k <= 10: return [["tr", self.key(), self.expr(3)]]
        if k <= 13:
            l = self.label() if not self.indefer else None
            fl = {"kind": "if", "label": l}
            c = self.cond(2)
            pre = []
            if self.opt and s.bool(1, 2): c, pre = self.optcond(2)
            a = self.inner(fl, d, pre)
            b = None
            if s.bool():
                if s.bool(1, 4): b = [["if", None, self.cond(2), self.inner(fl, d), self.inner(fl, d) if s.bool() else None]]
                else: b = self.inner(fl, d)
            return [["if", l, c, a, b]]
        if k <= 15:
            n = self.fresh()
            l = self.label()
            fl = {"kind": "loop", "label": l}
            sub = s.draw(3)
            cnt = s.int(1, 4)
            if sub == 0:
                return [["for", l, [["let", n, ["c", 0]]], ["k", "<", ["v", n], ["c", cnt]], [["inc", n, "++"]], self.inner(fl, d, [n], [n])]]
            if sub == 1:
                m = self.fresh()
                return [["for", l, [["let", n, ["c", cnt]], ["let", m, self.expr(1)]], ["k", ">", ["v", n], ["c", 0]],
                         [["inc", n, "--"], ["set", m, "+=", ["v", n]]], self.inner(fl, d, [n, m], [n])]]
            if sub == 2:
                self.ro.add(n)
                self.vars[-1].append(n)
                e = ["k", ">", ["pp", n, "--", 0], ["c", 0]]
                if s.bool(1, 3): e = ["l", "&&", e, self.cond(1)]
                return [["let", n, ["c", cnt]], ["while", l, e, self.inner(fl, d)]]
            return [["for", l, [["let", n, self.expr(1)], ], ["l", "&&", ["k", "<", ["pp", n, "++", 0], ["c", 4]], ["k", ">", ["v", n], ["c", -4]]], [], self.inner(fl, d, [n], [n])]]
        if k == 16:
            n = self.fresh()
            self.ro.add(n)
            self.vars[-1].append(n)
            l = self.label()
            e = ["k", "<", ["pp", n, "++", 1], ["c", s.int(1, 4)]]
            return [["let", n, ["c", 0]], ["do", l, self.inner({"kind": "loop", "label": l}, d), e]]
        if k <= 18:
            a = s.choice(sorted(self.arrays))
            n = len(self.arrays[a])
            lo = s.draw(n - 1)
            hi = s.int(lo, n - 1)
            if s.bool(): lo, hi = 0, n - 1
            l = self.label()
            v = self.fresh()
            i = self.fresh() if s.bool() else None
            ref = s.bool()
            return [["foreach", l, s.bool(), i, v, ref, [a, lo, hi], self.inner({"kind": "loop", "label": l}, d, [v] + ([i] if i else []))]]
        if k <= 21: return self.switch(d)
        if k == 22: return [["block", self.inner({"kind": "block", "label": None}, d)]]
        return self.defer(d)

    def defer(self, d):
        s = self.s
        if self.indefer: return [["tr", self.key(), self.expr(2)]]
        kind, var = "", None
        if self.opt and self.ret.endswith("?"):
            kind = s.choice(["", "", "try", "catch", "catch"])
            if kind == "catch" and s.bool(): var = self.fresh()
        save = self.flow
        self.flow, self.indefer = [], self.indefer + 1
        nj, self.nojump_return = self.nojump_return, True
        self.vars.append([var] if var else [])
        b = self.body(min(d - 1, 1), lo=1, hi=2)
        self.vars.pop()
        self.nojump_return = nj
        self.flow, self.indefer = save, self.indefer - 1
        return [["defer", kind, b, var]]

    def switch(self, d):
        s = self.s
        l = self.label()
        if s.bool(1, 4):
            n = s.int(1, 4)
            cs = [["if", ["tr", self.key(), self.cond(2)], None] for _ in range(n)]
            if s.bool(2, 3): cs.append(["default", None])
            subj = None
        else:
            vals = sorted({s.int(-3, 14) for _ in range(s.int(1, 6))})
            cs = []
            i = 0
            while i < len(vals):
                if i + 1 < len(vals) and s.bool(1, 4):
                    cs.append(["val", vals[i], vals[i + 1], None])
                    i += 2
                else:
                    cs.append(["val", vals[i], vals[i], None])
                    i += 1
            # any order
            for i in range(len(cs) - 1):
                j = s.int(i, len(cs) - 1)
                cs[i], cs[j] = cs[j], cs[i]
            if s.bool(2, 3): cs.insert(s.choice([len(cs), s.draw(len(cs))]), ["default", None])
            subj = self.expr(2)
        for i, c in enumerate(cs):
            if i < len(cs) - 1 and s.bool(1, 6):
                continue
            later = [x for q in cs[i + 1:] if q[0] == "val" for x in (q[1], q[2])]
            fl = {"kind": "switch", "label": l, "next": i < len(cs) - 1, "later": later if subj is not None else [],
                  "default_later": any(q[0] == "default" for q in cs[i + 1:])}
            c[-1] = self.inner(fl, d, lo=1, hi=3)
        return [["switch", l, subj, cs]]

    def optcond(self, d):
        s = self.s
        if s.bool():
            n = self.fresh() if s.bool() else None
            # (a bare variable would be unwrapped in the else)
            es = [["b", "+", e, ["c", 0]] if e[0] == "ov" else e for e in (self.oexpr(d, True) for _ in range(s.choice([1, 1, 1, 2])))]
            return ["catch", n, es], [n] if n else []
        ps, names = [], []
        for _ in range(s.choice([1, 1, 2])):
            n = self.fresh()
            e = self.oexpr(d, True)
            ps.append([n, e])
            names.append(n)
            self.vars.append([n])
        if s.bool(1, 3): ps.append([None, self.cond(1)])
        for _ in names: self.vars.pop()
        return ["try", ps], names

    def optstmt(self, d):
        s = self.s
        k = s.draw(6)
        ov = [v for sc in self.ovars for v in sc]
        if k <= 1:
            e = self.oexpr(2)
            n = self.fresh()
            self.ovars[-1].append(n)
            return [["olet", n, e]]
        if k == 2 and ov: return [["oset", s.choice(ov), s.choice([["F", s.draw(NF - 1)], self.oexpr(2)])]]
        if k == 3 and self.ovars[-1] and not self.indefer and not self.nojump_return:
            n = s.choice(self.ovars[-1])
            v = self.fresh() if s.bool() else None
            self.vars.append([v] if v else [])
            b = self.body(min(d - 1, 0), lo=1, hi=2, jump=False) + [self.ret_stmt()]
            self.vars.pop()
            self.ovars[-1].remove(n)
            self.vars[-1].append(n)
            return [["unwrap", n, v, b]]
        if k == 4:
            c = self.callexpr(2, ("void?", "int?"))
            if c: return [["void", c]]
        if k == 5 and self.ret.endswith("?") and not self.indefer:
            c = self.callexpr(2, ("void?", "int?"))
            if c: return [["expr", ["!", c]]] if next(f for f in self.funcs if f["name"] == c[1])["ret"] == "void?" else [["tr", self.key(), ["!", c]]]
        return [["tr", self.key(), self.handled(2)]]


def stats(p):
    """Constructs used in a program."""
    out = set()

    def go(x):
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                k = x[0]
                if k == "foreach": k += "_r" * x[2] + " &" * x[5]
                if k == "defer" and x[1]: k += " " + x[1]
                if k in ("break", "continue", "nextcase") and x[1]: k += " label"
                if k == "nextcase" and x[2]: k += " to"
                if k == "if" and isinstance(x[1], str): k += " label"
                out.add(k)
            for y in x: go(y)
    for f in p["funcs"]: go(f["body"])
    return out


STMT = {"tr", "expr", "void", "let", "static", "olet", "oset", "set", "seta", "inc", "block", "defer", "if", "while", "do", "for", "foreach", "switch",
        "break", "continue", "nextcase", "return", "unwrap"}
EXPR = {"c", "v", "ov", "b", "u", "k", "l", "n", "b1", "t", "el", "tr", "ix", "call", "as", "pp", "F", "!", "!!", "??", "ok", "ct"}


def edits(x, path=()):
    """(path, replacement) pairs making the program smaller; a replacement of None deletes a list element, ("splice", xs) puts xs in its place."""
    if isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, list) and y and isinstance(y[0], str):
                if y[0] in STMT and not (x and isinstance(x[0], str)):
                    yield path + (i,), None
                    for z in y:
                        if isinstance(z, list) and z and isinstance(z[0], list) and z[0] and isinstance(z[0][0], str) and z[0][0] in STMT:
                            yield path + (i,), ("splice", z)
                if x and isinstance(x[0], str) and y[0] in EXPR and y != ["c", 0]:
                    if y[0] not in ISBOOL: yield path + (i,), ["c", 0]
                    else: yield path + (i,), ["k", "==", ["c", 0], ["c", 0]]
                    for z in y:
                        if isinstance(z, list) and z and isinstance(z[0], str) and z[0] in EXPR:
                            yield path + (i,), z
            yield from edits(y, path + (i,))


def scoped(p):
    """Whether every name is declared before its use."""
    glob = set(p["globals"]) | set(p["arrays"])
    fs = {f["name"] for f in p["funcs"]}

    def ex(e, sc):
        if not isinstance(e, list): return True
        if e and isinstance(e[0], str):
            if e[0] in ("v", "ov", "as", "pp", "ix") and not (e[1] in sc or e[1] in glob): return False
            if e[0] == "call" and e[1] not in fs: return False
            if e[0] == "??" and not isopt(e[1]): return False
            if e[0] == "t" and e[3][:1] == ["F"] and not (e[1][0] == "k" and e[1][2][0] == "v"): return False
        return all(ex(x, sc) for x in e)

    def cond(c, sc):
        if c[0] == "try":
            n = set(sc)
            for name, e in c[1]:
                if not ex(e, n): return None
                if name: n.add(name)
            return n
        if c[0] == "catch" and any(e[0] == "ov" for e in c[2]): return None
        if c[0] == "catch": return (set(sc) | ({c[1]} if c[1] else set())) if all(ex(e, sc) for e in c[2]) else None
        return set(sc) if ex(c, sc) else None

    def body(b, sc, labels):
        sc = set(sc)
        return all(st(x, sc, labels) for x in b)

    def st(x, sc, lb):
        k = x[0]
        if k in ("let", "olet"):
            if x[2] is not None and not ex(x[2], sc): return False
            sc.add(x[1])
            return True
        if k == "static":
            sc.add(x[1])
            return True
        if k in ("set", "oset", "inc", "seta", "unwrap") and not (x[1] in sc or x[1] in glob): return False
        if k == "unwrap": return body(x[3], sc | ({x[2]} if x[2] else set()), lb)
        if k in ("tr", "expr", "void", "set", "oset", "seta", "inc", "return"): return ex(x[1:], sc)
        if k in ("break", "continue"): return x[1] is None and bool(lb) or x[1] in lb
        if k == "nextcase": return bool(lb) and ex(x[2], sc)
        if k == "block": return body(x[1], sc, lb)
        if k == "defer": return body(x[2], sc | ({x[3]} if x[3] else set()), ())
        lb = tuple(lb) + (x[1] or "-",)
        if k in ("if", "while"):
            c = cond(x[2], sc)
            return c is not None and body(x[3], c, lb) and (k == "while" or x[4] is None or body(x[4], sc, lb))
        if k == "do": return body(x[2], sc, lb) and ex(x[3], sc)
        if k == "for":
            n = set(sc)
            return all(st(q, n, lb) for q in x[2]) and ex(x[3], n) and all(st(q, n, lb) for q in x[4]) and body(x[5], n, lb)
        if k == "foreach": return body(x[7], sc | {x[3], x[4]}, lb)
        if k == "switch": return ex(x[2], sc) and all(ex(c[1], sc) for c in x[3] if c[0] == "if") and all(c[-1] is None or body(c[-1], sc, lb) for c in x[3])
        return True
    try:
        return all(body(f["body"], set(f["params"]), ()) for f in p["funcs"])
    except (TypeError, IndexError, KeyError):
        return False


def reduce(p):
    import pickle

    def dup(x): return pickle.loads(pickle.dumps(x))
    for key in ("calls", "funcs"):
        for i in range(len(p[key])):
            q = dup(p)
            del q[key][i]
            if q["calls"] and {c[0] for c in q["calls"]} <= {f["name"] for f in q["funcs"]}:
                yield q
    for fi, f in enumerate(p["funcs"]):
        es = list(edits(f["body"]))
        def size(e):
            x = f["body"]
            for i in e[0]: x = x[i]
            return len(str(x)) - (len(str(e[1])) if e[1] is not None else 0)
        es.sort(key=lambda e: -size(e))
        for path, new in es:
            q = dup(p)
            x = q["funcs"][fi]["body"]
            for i in path[:-1]: x = x[i]
            if new is None: del x[path[-1]]
            elif isinstance(new, tuple): x[path[-1]:path[-1] + 1] = new[1]
            else: x[path[-1]] = new
            yield q
