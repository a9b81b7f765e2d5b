"""Typed integer expressions: generation, C3 text and exact evaluation."""

TYPES = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128"]
NAME = {"i8": "ichar", "u8": "char", "i16": "short", "u16": "ushort", "i32": "int", "u32": "uint", "i64": "long", "u64": "ulong",
        "i128": "int128", "u128": "uint128", "bool": "bool"}
ARITH = ["+", "-", "*", "/", "%"]
BIT = ["&", "|", "^"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
PREC = {"*": 6, "/": 6, "%": 6, "<<": 5, ">>": 5, "&": 4, "|": 4, "^": 4, "+": 3, "-": 3, **{c: 2 for c in CMP}, "&&": 1, "||": 0}


class Undefined(Exception):
    """Division by zero, overflowing division or a shift out of range."""


def bits(t): return 1 if t == "bool" else int(t[1:])
def signed(t): return t[0] == "i"
def promoted(t): return t if t == "bool" or bits(t) >= 32 else t[0] + "32"


def wrap(v, t):
    if t == "bool":
        return int(v != 0)
    n = bits(t)
    v &= (1 << n) - 1
    return v - (1 << n) if signed(t) and v >> (n - 1) else v


def common(a, b):
    """The usual arithmetic conversion: the wider type; at equal width, or when the unsigned one is wider, signed wins."""
    if a == b:
        return promoted(a)
    n = max(bits(a), bits(b))
    return promoted(("i" if signed(a) or signed(b) else "u") + str(n))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(op, a, b, t):
    """a op b for operands already converted to the promoted type t."""
    n = bits(t)
    if op == "+": return wrap(a + b, t)
    if op == "-": return wrap(a - b, t)
    if op == "*": return wrap(a * b, t)
    if op in "/%":
        if b == 0 or (signed(t) and b == -1 and a == -(1 << (n - 1))):
            raise Undefined
        q = tdiv(a, b)
        return q if op == "/" else a - b * q
    if op == "&": return a & b
    if op == "|": return a | b
    if op == "^": return a ^ b
    if op in ("<<", ">>"):
        if b < 0 or b >= n:
            raise Undefined
        return wrap(a << b, t) if op == "<<" else a >> b
    raise KeyError(op)


def compare(op, a, b):
    return int({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])


def typeof(e):
    k = e[0]
    if k in ("v", "c"): return e[2]
    if k == "b": return e[4]
    if k == "u": return e[3]
    if k in ("k", "l"): return "bool"
    if k == "x": return e[1]
    if k == "t": return e[4]
    raise KeyError(k)


def ev(e, env):
    k = e[0]
    if k == "v": return env[e[1]]
    if k == "c": return e[1]
    if k == "b":
        t = e[4]
        a, b = ev(e[2], env), ev(e[3], env)
        if e[1] in ("<<", ">>"):
            return binop(e[1], wrap(a, t), b, t)
        return binop(e[1], wrap(a, t), wrap(b, t), t)
    if k == "u":
        v = ev(e[2], env)
        t = e[3]
        if e[1] == "!": return int(not v)
        if e[1] == "-": return wrap(-v, t)
        if e[1] == "~": return wrap(~v, t)
        return wrap(v, t)
    if k == "k": return compare(e[1], ev(e[2], env), ev(e[3], env))
    if k == "l":
        a = ev(e[2], env)
        if e[1] == "&&": return ev(e[3], env) if a else 0
        return 1 if a else ev(e[3], env)
    if k == "x": return wrap(ev(e[2], env), e[1])
    if k == "t": return ev(e[2] if ev(e[1], env) else e[3], env)
    raise KeyError(k)


def lit(v, t):
    """A literal of type t (values beyond 64 bits are put together)."""
    if t == "bool": return "true" if v else "false"
    if t == "i32" and -(1 << 31) < v < (1 << 31): return str(v) if v >= 0 else f"({v})"
    n = NAME[t]
    if v < 0:
        if v == -(1 << (bits(t) - 1)):
            return f"(({n})(-{lit(-(v + 1), t)} - 1))"
        return f"(({n})(-{lit(-v, t)}))"
    if v >= 1 << 64:
        return f"((({n}){v >> 64:#x}u64 << 64) | ({n}){v & ((1 << 64) - 1):#x}u64)"
    if v < 1 << 31: return f"(({n}){v})"
    return f"(({n}){v:#x}u64)"


def text(e, name=lambda n: n, sl=None):
    """C3 text; sl: a list of 0/1 choices (cycled) on leaving out parentheses that precedence makes redundant."""
    st = [0]

    def slack():
        if not sl:
            return False
        st[0] += 1
        return sl[st[0] % len(sl)]

    def go(e):
        """-> (text, precedence)"""
        k = e[0]
        if k == "v": return name(e[1]), 9
        if k == "c":
            return lit(e[1], e[2]), 9
        if k in ("b", "k", "l"):
            p = PREC[e[1]]
            ls, lp = go(e[2])
            rs, rp = go(e[3])
            unclear = {4: 4, 2: 2, 5: 5}.get(p)
            if lp < p or lp == unclear or not slack(): ls = par(ls, lp)
            if rp <= p or not slack(): rs = par(rs, rp)
            return f"{ls} {e[1]} {rs}", p
        if k == "u":
            s, p = go(e[2])
            if p < 9 or e[1] in "-+": s = par(s, p) if p < 9 else s
            return f"{e[1]}{s}", 7
        if k == "x":
            s, p = go(e[2])
            return f"({NAME[e[1]]}){par(s, p) if p < 9 else s}", 7
        if k == "t":
            c, a, b = (go(x) for x in e[1:4])
            return f"({par(*c)} ? {par(*a)} : {par(*b)})", 9
        raise KeyError(k)

    def par(s, p):
        return s if p >= 9 else f"({s})"
    return go(e)[0]


def has_var(e):
    return e[0] == "v" or any(has_var(x) for x in e[1:] if isinstance(x, list))


def tame(e, pick):
    """Removes what the compiler would have to fold or refuse: operators on constants only, constant zero divisors, constant shifts out of range."""
    if e[0] in ("v", "c"):
        return e
    e = [tame(x, pick) if isinstance(x, list) else x for x in e]
    if e[0] in ("b", "k", "l") and not has_var(e):
        e[2] = pick(typeof(e[2]))
    elif e[0] in ("u", "x", "t") and not has_var(e):
        return pick(typeof(e))
    if e[0] == "b" and e[3][0] == "c":
        n = bits(e[4])
        if e[1] in "/%" and e[3][1] in (0, -1):
            e[3] = ["c", 3, e[3][2]]
        if e[1] in ("<<", ">>") and not 0 <= e[3][1] < n:
            e[3] = ["c", 1, e[3][2]]
    return e


class Gen:
    """vars: {name: type}; consts: whether literals may occur."""

    def __init__(self, s, vars, consts=True, lits128=True, mixed=True, ternary=True):
        self.s, self.vars, self.consts, self.l128, self.mixed, self.ternary = s, vars, consts, lits128, mixed, ternary

    def leaf(self, t):
        s = self.s
        vs = [n for n, vt in self.vars.items() if vt == t]
        if t == "bool":
            if vs and s.bool():
                return ["v", s.choice(vs), t]
            if self.vars:
                n = s.choice(sorted(n for n in self.vars))
                return ["k", s.choice(["==", "!="]), ["v", n, self.vars[n]], self.zero(self.vars[n])]
            return ["c", s.draw(1), "bool"]
        k = s.draw(5)
        if vs and k <= 2:
            return ["v", s.choice(vs), t]
        if self.vars and k == 3 and self.mixed:
            n = s.choice(sorted(self.vars))
            return ["v", n, t] if self.vars[n] == t else ["x", t, ["v", n, self.vars[n]]]
        if self.consts:
            return ["c", s.inum(bits(t), signed(t)), t] if k != 4 else ["c", s.int(0, 9), t]
        if vs:
            return ["v", s.choice(vs), t]
        n = s.choice(sorted(self.vars))
        return ["x", t, ["v", n, self.vars[n]]]

    def varof(self, t):
        """A variable, converted to t."""
        vs = [n for n in sorted(self.vars) if self.vars[n] == t]
        if vs:
            return ["v", self.s.choice(vs), t]
        n = self.s.choice(sorted(self.vars))
        return ["x", t, ["v", n, self.vars[n]]]

    def zero(self, t):
        return ["c", 0, t]

    def amount(self, t, d):
        """A shift amount below the width of t (mostly)."""
        s = self.s
        n = bits(t)
        k = s.draw(3)
        if k == 0 and self.consts:
            return ["c", s.choice([0, 1, n - 1, n // 2, s.draw(n - 1)]), "i32"]
        rt = s.choice(TYPES)
        if k == 1:
            return self.leaf(rt)
        e = self.expr(promoted(rt), d - 1)
        return ["b", "&", e, ["c", n - 1, promoted(rt)], promoted(rt)]

    def expr(self, t, d):
        s = self.s
        if d <= 0 or s.bool(1, 8):
            return self.leaf(t)
        if t == "bool":
            k = s.draw(6)
            if k <= 3:
                if self.mixed and s.bool(1, 3) and len(self.vars) > 1:
                    # operands of different types: compared as the numbers they are
                    a, b = (["v", n, self.vars[n]] for n in (s.choice(sorted(self.vars)), s.choice(sorted(self.vars))))
                    if "bool" not in (a[2], b[2]):
                        return ["k", s.choice(CMP), a, b]
                ot = s.choice(TYPES)
                a, b = self.expr(ot, d - 1), self.expr(ot, d - 1)
                if typeof(a) == typeof(b) and (has_var(a) and has_var(b) or signed(ot)):
                    return ["k", s.choice(CMP), a, b]
                return self.leaf(t)
            if k == 4:
                return ["u", "!", self.expr("bool", d - 1), "bool"]
            if k == 5:
                ot = s.choice(TYPES)
                return ["x", "bool", self.expr(ot, d - 1)]
            return ["l", s.choice(["&&", "||"]), self.expr("bool", d - 1), self.expr("bool", d - 1)]
        if promoted(t) != t:
            k = s.draw(3)
            if k == 0 and self.ternary:
                return ["t", self.expr("bool", d - 1), self.expr(t, d - 1), self.expr(t, d - 1), t]
            return ["x", t, self.expr(s.choice([x for x in TYPES if promoted(x) == x]), d)]
        k = s.draw(13)
        if k <= 4:
            op = s.choice(ARITH)
            return ["b", op, self.expr(t, d - 1), self.expr(t, d - 1), t]
        if k == 5:
            return ["b", s.choice(BIT), self.expr(t, d - 1), self.expr(t, d - 1), t]
        if k <= 7:
            return ["b", s.choice(["<<", ">>"]), self.expr(t, d - 1), self.amount(t, d), t]
        if k == 8:
            return ["u", s.choice(["-", "~"]), self.expr(t, d - 1), t]
        if k == 9:
            return ["x", t, self.expr(s.choice(TYPES + ["bool"]), d - 1)]
        if k == 10 and self.ternary:
            return ["t", self.expr("bool", d - 1), self.expr(t, d - 1), self.expr(t, d - 1), t]
        if k == 11 and bits(t) == 32:
            # operands narrower than int are promoted first
            n = [x for x in ("i8", "i16") if signed(t)] or ["u8", "u16"]
            a, b = self.leaf(s.choice(n)), self.leaf(s.choice(n))
            return ["b", s.choice(ARITH + BIT), a, b, common(typeof(a), typeof(b))] if common(typeof(a), typeof(b)) == t else ["b", "+", a, b, t]
        if k == 12 and self.mixed and len(self.vars) > 1:
            ns = [n for n in sorted(self.vars) if self.vars[n] != "bool"]
            if ns:
                a, b = (["v", n, self.vars[n]] for n in (s.choice(ns), s.choice(ns)))
                r = common(a[2], b[2])
                e = ["b", s.choice(ARITH + BIT), a, b, r]
                return e if r == t else ["x", t, e]
        return ["b", s.choice(ARITH + BIT), self.leaf(t), self.expr(t, d - 1), t]
