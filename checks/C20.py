"""C20: literals denote the values they spell."""
import base64, struct
from fractions import Fraction
from vf import pbt, pf, c3

TY = {8: ("ichar", "char"), 16: ("short", "ushort"), 32: ("int", "uint"), 64: ("long", "ulong"), 128: ("int128", "uint128")}
LEVELS = [("-O0",), ("-O2",)]
ESC = {"a": 7, "b": 8, "e": 27, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "0": 0, "'": 39, '"': 34, "\\": 92}
PRE = pf.PRE + "fn void pt(char[] s) @noinline { ps(\"t\", s); }\n"


def under(s, digits):
    """Underscores between digits, sometimes."""
    if len(digits) < 2 or not s.weighted([(3, False), (1, True)]):
        return digits
    out = digits[0]
    for d in digits[1:]:
        out += ("_" if s.draw(2) == 0 else "") + d
    return out


def mixcase(s, t):
    k = s.draw(2)
    return t if k == 0 else t.upper() if k == 1 else "".join(c.upper() if s.draw(1) else c for c in t)


def value(s, bits):
    k = s.draw(5)
    if k == 0: return s.int(0, 9)
    if k == 1: return (1 << s.int(0, bits)) - 1
    if k == 2: return min((1 << bits) - 1, 1 << s.int(0, bits - 1))
    if k == 3: return s.int(0, min(1000, (1 << bits) - 1))
    n = s.int(1, bits)
    v = 0
    for _ in range((n + 7) // 8):
        v = v << 8 | s.draw(255)
    return v & ((1 << n) - 1)


def pow2(n):
    b = 8
    while b < n: b *= 2
    return b


def halves(c):
    """Smaller cases: fewer literals."""
    for i in range(len(c["lits"])):
        if len(c["lits"]) > 1:
            yield dict(c, lits=c["lits"][:i] + c["lits"][i + 1:])
    if isinstance(c["lits"][0][0], list):
        for i, l in enumerate(c["lits"]):
            for j in range(len(l)):
                if len(l) > 1:
                    yield dict(c, lits=c["lits"][:i] + [l[:j] + l[j + 1:]] + c["lits"][i + 1:])


class Lits(pf.PF):
    pre, levels = PRE, LEVELS

    def reduce(self, c):
        return list(halves(c))


class Ints(Lits):
    quick, thorough = 4000, 80000
    name, batch = "integers", 60

    def gen(self, s):
        return {"level": s.draw(1), "lits": [self.lit(s) for _ in range(s.int(1, 4))]}

    def lit(self, s):
        radix = s.weighted([(4, 10), (4, 16), (2, 8), (2, 2)])
        suf = s.weighted([(4, ""), (1, "u"), (1, "l"), (1, "ul"), (4, "n")])
        sg = s.bool()
        bits = s.choice([8, 16, 32, 64, 128])
        if suf == "n":
            v = value(s, bits - sg)
            suf = ("i" if sg else "u") + str(bits)
            ty = TY[bits][0 if sg else 1]
        elif suf in ("l", "ul"):
            v = value(s, 63 if suf == "l" else 64)
            ty = "long" if suf == "l" else "ulong"
        else:
            v = value(s, 127 if radix == 10 and suf == "" else 128)
            ty = None
        if radix == 10:
            d = "0" * s.weighted([(6, 0), (1, s.int(1, 3))]) + str(v)
            if ty is None:
                b = 32
                while v >= 1 << (b - (suf == "")): b *= 2
                ty = TY[b][0 if suf == "" else 1]
            t = under(s, d)
        else:
            w = {16: 4, 8: 3, 2: 1}[radix]
            d = {16: f"{v:x}", 8: f"{v:o}", 2: f"{v:b}"}[radix]
            pad = s.weighted([(3, 0), (1, s.int(1, 6))])
            if len(d) * w + pad * w <= 128:
                d = "0" * pad + d
            if ty is None:
                n = len(d) * w
                if n > 128:
                    v, d = v & 0xff, {16: f"{v & 255:x}", 8: f"{v & 255:o}", 2: f"{v & 255:b}"}[radix]
                    n = len(d) * w
                ty = TY[pow2(n)][1]
            t = {16: "0x", 8: "0o", 2: "0b"}[radix]
            t = (t.upper() if s.draw(3) == 0 else t) + under(s, mixcase(s, d))
        return [t + (suf.upper() if s.draw(3) == 0 else suf), str(v), ty]

    def nontrivial(self, c):
        return any(int(v) > 9 for _, v, _ in c["lits"])

    def nt_rule(self):
        return "a literal above 9"

    def emit(self, k, c):
        D, B, W = [], [], []
        for i, (t, v, ty) in enumerate(c["lits"]):
            D.append(f"{ty} g{k}_{i} = {t};")
            B.append(f'pt($typeof({t}).nameof); pw("v", (uint128)({t})); pw("g", (uint128)g{k}_{i}); {ty} l{i} = {t}; pl("e", (long)(l{i} == *(&g{k}_{i})));')
            W += [f"t={ty}", "v=" + pf.u128(int(v)), "g=" + pf.u128(int(v)), "e=1"]
        return "\n".join(D), "\n".join(B), W


def rnd(x, mant, emin, emax):
    """Fraction rounded to nearest even in a binary format, None if it overflows."""
    if x == 0: return x
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** e > x: e -= 1
    q = Fraction(2) ** (max(e, emin) - mant + 1)
    n = x / q
    f = n.numerator // n.denominator
    r = n - f
    if r > Fraction(1, 2) or r == Fraction(1, 2) and f & 1: f += 1
    y = f * q
    return None if y >= Fraction(2) ** (emax + 1) else y


FMT = {"double": (53, -1022, 1023), "float": (24, -126, 127), "float16": (11, -14, 15)}


def hexf(x):
    """The %a text of a non-negative double value."""
    if x == 0: return "0x0p+0"
    h = float(x).hex()
    m, e = h[2:].split("p")
    if "." in m:
        m = m.rstrip("0").rstrip(".")
    e = int(e)
    if m.startswith("0."):
        # Python shows subnormals with exponent -1022 as glibc does
        pass
    return f"0x{m}p{e:+d}"


class Floats(Lits):
    quick, thorough = 4000, 80000
    name, batch = "floats", 60

    def gen(self, s):
        return {"level": s.draw(1), "lits": [self.lit(s) for _ in range(s.int(1, 4))]}

    def digits(self, s, al, lo, hi):
        return "".join(s.choice(al) for _ in range(s.int(lo, hi)))

    def lit(self, s):
        suf, ty = s.weighted([(5, ("", "double")), (3, ("f", "float")), (1, ("f32", "float")), (1, ("f64", "double")), (1, ("f16", "float16"))])
        for _ in range(20):
            t, x = self.hexa(s) if s.draw(2) == 0 else self.tie(s, ty) if s.draw(2) == 0 else self.dec(s)
            if "0x" in t and "p" not in t and suf:
                continue
            r = rnd(x, *FMT[ty])
            if r is None or ty != "double" and rnd(x, *FMT["double"]) is None:
                continue
            if ty == "float16":
                r = rnd(rnd(x, *FMT["double"]), *FMT[ty])   # through double: at most one more rounding
                if r is None or r != rnd(x, *FMT[ty]): continue
            return [mixcase(s, t) if s.draw(3) == 0 else t, suf, ty, hexf(r)]
        return ["1.5", "", "double", hexf(Fraction(3, 2))]

    def dec(self, s):
        D = "0123456789"
        a = s.choice(D) + self.digits(s, D, 0, s.weighted([(4, 3), (1, 25)]))
        form = s.draw(3)
        frac, exp = "", None
        if form != 3: frac = self.digits(s, D, 0 if form == 0 else 1, s.weighted([(4, 6), (1, 40)]))
        if form >= 2: exp = s.weighted([(4, s.int(-8, 8)), (1, s.int(-45, 38)), (1, s.int(-330, 308)), (1, s.choice([-324, -323, -308, 307, -46, -45, -38, 38]))])
        x = Fraction(int(a + frac)) / 10 ** len(frac)
        t = under(s, a)
        if form != 3:
            t += "." + (under(s, frac) if frac else "")
        if exp is not None:
            x *= Fraction(10) ** exp
            t += s.choice("eE") + (str(exp) if exp < 0 else s.choice(["", "+"]) + str(exp))
        return t, x

    def tie(self, s, ty):
        """A decimal at or next to the middle of two neighbours."""
        m, emin, emax = FMT[ty]
        e = s.int(max(emin, -40), min(emax, 40))
        n = (1 << m - 1) + value(s, m - 1)
        x = Fraction(2 * n + 1, 2) * Fraction(2) ** (e - m + 1)
        k = s.draw(2)
        den = x.denominator
        p = den.bit_length() - 1
        d = x.numerator * 5 ** p   # x = d / 10^p
        if k:
            z = s.int(1, 12)
            d, p = d * 10 ** z + (1 if k == 1 else -1), p + z
        t = str(d).rjust(p + 1, "0")
        t = t[:len(t) - p] + "." + t[len(t) - p:] if p else t + ".0"
        return t, Fraction(d) / 10 ** p

    def hexa(self, s):
        H = "0123456789abcdef"
        a = s.choice(H) + self.digits(s, H, 0, s.weighted([(4, 3), (1, 14)]))
        form = s.draw(2)
        frac = self.digits(s, H, 1, s.weighted([(3, 4), (1, 16)])) if form != 1 else ""
        x = Fraction(int(a + frac, 16)) / 16 ** len(frac)
        t = "0x" + under(s, a) + ("." + under(s, frac) if frac else "")
        if form:
            e = s.weighted([(4, s.int(-12, 12)), (1, s.int(-140, 120)), (1, s.int(-1080, 1020))])
            x *= Fraction(2) ** e
            t += "p" + (str(e) if e < 0 else s.choice(["", "+"]) + str(e))
        return t, x

    def nontrivial(self, c):
        return any(w != "0x0p+0" for _, _, _, w in c["lits"])

    def nt_rule(self):
        return "a literal whose value is not zero"

    def emit(self, k, c):
        D, B, W = [], [], []
        for i, (t, suf, ty, w) in enumerate(c["lits"]):
            t += suf
            D.append(f"{ty} g{k}_{i} = {t};")
            B.append(f'pt($typeof({t}).nameof); pd("v", (double)({t})); pd("g", (double)*(&g{k}_{i}));')
            W += [f"t={ty}", f"v={w}", f"g={w}"]
        return "\n".join(D), "\n".join(B), W


UNI = [0xE9, 0xDF, 0x3A9, 0x7FF, 0x800, 0x20AC, 0xFFFD, 0x4E2D, 0x10000, 0x1F600, 0x10FFFF, 0x80, 0xFF, 0x100]


def achar(s, q):
    """-> (source, code) of an ASCII character that needs no escape inside quote q."""
    c = s.choice("azAZ09 _-+*/%$#@!?.,:;(){}[]<>|&^~=`'\"")
    return ("\\" + c if c == q else c), ord(c)


def esc(s):
    k = s.choice(sorted(ESC))
    return "\\" + k, ESC[k]


class Chars(Lits):
    quick, thorough = 2500, 50000
    name, batch = "characters", 60

    def gen(self, s):
        return {"level": s.draw(1), "lits": [self.lit(s) for _ in range(s.int(1, 4))]}

    def lit(self, s):
        k = s.draw(7)
        if k == 0:
            v = s.choice(UNI + [s.int(0xA1, 0xD7FF)])
            return ["'" + chr(v) + "'", str(v), "ushort" if v <= 0xffff else "uint"]
        if k == 1:
            v = s.choice([0, 0x41, 0xFF, 0xFFFF, 0x8000, s.int(0, 0xffff)])
            return ["'\\u" + mixcase(s, f"{v:04x}") + "'", str(v), "ushort"]
        if k == 2:
            v = s.choice([0, 0x41, 0x1F600, 0x10FFFF, s.int(0, 0x10ffff)])
            return ["'\\U" + mixcase(s, f"{v:08x}") + "'", str(v), "uint"]
        n = s.weighted([(5, 1), (4, s.int(2, 4)), (2, s.int(5, 8)), (2, s.int(9, 16))])
        t, v = "", 0
        for _ in range(n):
            j = s.draw(3)
            if j == 0: a, b = esc(s)
            elif j == 1:
                b = s.choice([0, 0x7f, 0x80, 0xff, s.draw(255)])
                a = "\\x" + mixcase(s, f"{b:02x}")
            else: a, b = achar(s, "'")
            if a == "$" and False: continue
            t, v = t + a, v << 8 | b
        ty = "char" if n == 1 else "ushort" if n == 2 else "uint" if n <= 4 else "ulong" if n <= 8 else "uint128"
        return ["'" + t + "'", str(v), ty]

    def nontrivial(self, c):
        return any(len(t) > 3 for t, _, _ in c["lits"])

    def nt_rule(self):
        return "a literal that is more than one plain character"

    emit = Ints.emit


class Strs(Lits):
    quick, thorough = 2500, 50000
    name, batch = "strings", 40

    def gen(self, s):
        return {"level": s.draw(1), "lits": [[self.part(s) for _ in range(s.weighted([(4, 1), (1, 2), (1, 3)]))] for _ in range(s.int(1, 3))]}

    def part(self, s):
        raw = s.draw(3) == 0
        t, v = "", b""
        for _ in range(s.weighted([(5, s.int(0, 10)), (1, s.int(20, 60))])):
            k = s.draw(7)
            if raw:
                if k == 0: a, b = "``", b"`"
                elif k == 1: a, b = "\n", b"\n"
                elif k == 2: a, b = s.choice(["\\n", "\\", "\\x41", '"']), None
                elif k == 3: a, b = chr(s.choice(UNI)), None
                else:
                    a = s.choice("abcXYZ019 {}()*/;'")
                    b = None
                if b is None: b = a.encode()
            elif k == 0:
                a, b = esc(s)
                b = bytes([b])
            elif k == 1:
                n = s.choice([0, 0x41, 0x7f, 0x80, 0xff, s.draw(255)])
                a, b = "\\x" + mixcase(s, f"{n:02x}"), chr(n).encode()
            elif k == 2:
                n = s.choice([x for x in UNI if x < 0x10000] + [0, 0x41, s.int(1, 0xd7ff), s.int(0xe000, 0xffff)])
                a, b = "\\u" + mixcase(s, f"{n:04x}"), chr(n).encode()
            elif k == 3:
                n = s.choice(UNI + [0, 0x41, s.int(0x10000, 0x10ffff)])
                a, b = "\\U" + mixcase(s, f"{n:08x}"), chr(n).encode()
            elif k == 4:
                a = chr(s.choice(UNI))
                b = a.encode()
            else:
                a, n = achar(s, '"')
                b = bytes([n])
            t, v = t + a, v + b
        q = "`" if raw else '"'
        return [q + t + q, v.hex()]

    def nontrivial(self, c):
        return any("\\" in p[0] or p[0][0] == "`" for l in c["lits"] for p in l)

    def nt_rule(self):
        return "an escape or a raw string"

    def emit(self, k, c):
        D, B, W = [], [], []
        for i, l in enumerate(c["lits"]):
            t, h = s2 = " ".join(p[0] for p in l), "".join(p[1] for p in l)
            n = len(h) // 2
            D.append(f"char[] g{k}_{i} = {t};")
            B.append(f'char[] a{i} = {t}; pl("n", (long)a{i}.len); pz("s", a{i}.ptr, a{i}.len); pz("g", g{k}_{i}.ptr, g{k}_{i}.len); pl("c", (long)$typeof({t}).len);'
                     f' char* z{i} = {t}; pl("z", z{i}[(int)idl({n})]);')
            W += [f"n={n}", f"s={h}", f"g={h}", f"z=0"]
            B[-1] = B[-1].replace(f'pl("c", (long)$typeof({t}).len);', "")
            if n:
                D.append(f"char[{n}] f{k}_{i} = {t};")
                B.append(f'pz("f", &f{k}_{i}, {n});')
                W.append(f"f={h}")
        return "\n".join(D), "\n".join(B), W


class Bytes(Lits):
    quick, thorough = 2000, 40000
    name, batch = "byte literals", 60

    def gen(self, s):
        return {"level": s.draw(1), "lits": [[self.part(s, i) for i in range(s.weighted([(4, 1), (2, 2), (1, 3)]))] for _ in range(s.int(1, 3))]}

    def part(self, s, i):
        v = bytes(s.draw(255) for _ in range(s.weighted([(6, s.int(1, 12)), (1, s.int(13, 50)), (1, 0 if i else 1)])))
        q = s.choice("\"'`") if True else '"'
        if s.bool():
            t = base64.b64encode(v).decode()
            if s.draw(3) == 0:
                t = t.rstrip("=") if len(t.rstrip("=")) % 4 != 1 else t
            if s.draw(3) == 0 and len(t) > 2:
                j = s.int(1, len(t) - 1)
                t = t[:j] + " " + t[j:] if "=" not in t[:j] else t
            return ["b64" + q + t + q, v.hex()]
        t = mixcase(s, v.hex())
        if s.draw(2) == 0:
            t = "".join(c + (" " if s.draw(3) == 0 else "") for c in t)
        return ["x" + q + t + q, v.hex()]

    def nontrivial(self, c):
        return any(len(p[1]) > 2 for l in c["lits"] for p in l)

    def nt_rule(self):
        return "more than one byte"

    def emit(self, k, c):
        D, B, W = [], [], []
        for i, l in enumerate(c["lits"]):
            t, h = " ".join(p[0] for p in l), "".join(p[1] for p in l)
            n = len(h) // 2
            D.append(f"char[*] g{k}_{i} = {t};")
            B.append(f'char[*] a{i} = {t}; pl("n", (long)a{i}.len); pz("s", &a{i}, a{i}.len); pz("g", &g{k}_{i}, g{k}_{i}.len);')
            W += [f"n={n}", f"s={h}", f"g={h}"]
        return "\n".join(D), "\n".join(B), W


class Bad(pbt.Family):
    quick, thorough = 2500, 50000
    """A declaration with a malformed or out-of-range literal on a known line, alone in its file."""
    name = "rejected"
    shrinkable = False
    level = 0

    def gen(self, s):
        k = s.draw(4)
        ty, t = [self.int_, self.float_, self.char_, self.str_, self.bytes_][k](s)
        return {"type": ty, "lit": t, "where": s.draw(2), "good": s.draw(3)}

    def dig(self, s, al="0123456789", lo=1, hi=6):
        return "".join(s.choice(al) for _ in range(s.int(lo, hi)))

    def num(self, s):
        p, al = s.choice([("", "0123456789"), ("0x", "0123456789abcdef"), ("0o", "01234567"), ("0b", "01")])
        return p, self.dig(s, al), al

    def int_(self, s):
        k = s.draw(8)
        p, d, al = self.num(s)
        if k == 0: return "uint128", p + d + "__" + self.dig(s, al)
        if k == 1: return "uint128", p + d + "_"
        if k == 2: return "uint128", s.choice(["0x", "0b", "0o"]) + s.choice(["", "_1", "g", "u8", "l"])
        if k == 3: return "uint128", s.choice(["0b" + self.dig(s, "01", 0) + s.choice("23456789"), "0o" + self.dig(s, "01234567", 0) + s.choice("89"), "0b" + self.dig(s, "01") + s.choice("ac"), "0o" + self.dig(s, "0123") + s.choice("af")])
        if k == 4:
            b = s.choice([8, 16, 32, 64, 128])
            sg = s.bool() or b == 128
            v = (1 << b - sg) + s.choice([0, 1, s.int(0, 1000)])
            if p: t = p + {"0x": f"{v:x}", "0o": f"{v:o}", "0b": f"{v:b}"}[p]
            else: t = str(v)
            return "uint128", t + ("i" if sg else "u") + str(b)
        if k == 5: return "uint128", p + d + s.choice(["i7", "u9", "u256", "i12", "i08", "u032", "ll", "lu", "i8i8", "u8x", "z", "k1", "uu", "u3", "i1024", "u1000000008"])
        if k == 6:
            v = (1 << 128) + s.choice([0, 1, s.int(0, 1 << 30), s.int(0, 1 << 60) << 68, (1 << 128) * s.int(1, 1 << 20)])
            if p: t = p + {"0x": f"{v:x}", "0o": f"{v:o}", "0b": f"{v:b}"}[p]
            else: t = str(v)
            return "uint128", t
        if k == 7:
            b = s.choice([8, 16, 32, 64])
            sg = s.draw(1)
            v = (1 << b - sg) + s.choice([0, 1, s.int(0, 1000)])
            return TY[b][1 - sg], str(v)
        return "uint128", p + d + s.choice(["q", "x", "y1", "g", "_g"]) if p != "" else d + s.choice(["q", "x", "a", "_g", "b1", "o7"])

    def float_(self, s):
        d, f = self.dig(s), self.dig(s)
        k = s.draw(7)
        if k == 0: return "double", d + s.choice(["e", "e+", "e-", "E", ".e", f".{f}e", f".{f}E+"])
        if k == 1: return "double", f"{d}.{f}__{d}"
        if k == 2: return "double", f"{d}._{f}"
        if k == 3: return "double", s.choice([f"1e{s.int(309, 5000)}", f"{s.int(18, 99)}e307", f"1e{s.int(39, 300)}f", f"0x1p{s.int(1024, 5000)}", f"0x1p{s.int(128, 1000)}f"])
        if k == 4: return "double", f"0x{d}" + s.choice(["p", "p+", "p-", ".8p", "P", "pa"])
        if k == 5: return "double", f"{d}.{f}" + s.choice(["u32", "l", "i8", "ul", "f17", "f48", "f8", "f256", "ff", "d", "q", "u"])
        if k == 6: return "double", f"{d}.{f}_"
        return "double", f"{d}e{s.int(0, 9)}_{s.int(0, 9)}"

    def char_(self, s):
        k = s.draw(7)
        u = chr(s.choice(UNI))
        if k == 0: return "uint128", "''"
        if k == 1: return "uint128", "'" + self.dig(s, "abc", 17, 20) + "'"
        if k == 2: return "uint128", "'" + s.choice([u + "a", "a" + u, u + u]) + "'"
        if k == 3: return "uint128", "'\\" + s.choice("cdghijklmopqswyzABC123456789(") + "'"
        if k == 4: return "uint128", "'" + s.choice(["\\x4", "\\x", "\\xg1", "\\x1g", "\\u123", "\\u12g4", "\\U0001F60", "\\u", "\\U"]) + "'"
        if k == 5: return "uint128", "'" + s.choice(["\\u0041a", "a\\u0041", "\\U00000041\\x01", "\\u0041\\u0041"]) + "'"
        if k == 6: return "uint128", "'" + self.dig(s, "abc", 1, 4)
        return "uint128", "'" + self.dig(s, "abc", 0, 4) + "\n'"

    def str_(self, s):
        k = s.draw(3)
        a, b = self.dig(s, "abc xyz", 0, 6), self.dig(s, "ghj xyz", 0, 6)
        if k == 0: return "String", f'"{a}\\{s.choice("cdghijklmopqswyzABC123456789(")}{b}"'
        if k == 1: return "String", f'"{a}' + s.choice(["\\x4", "\\x", "\\xg1", "\\x1g", "\\u123", "\\u12g4", "\\U0001F60", "\\u", "\\U"]) + f'{b}"'
        if k == 2: return "String", f'"{a}'
        return "String", f'"{a}\n{b}"'

    def bytes_(self, s):
        k = s.draw(4)
        h = "".join(f"{s.draw(255):02x}" for _ in range(s.int(0, 4)))
        q = s.choice("\"'`")
        if k == 0: return "char[*]", f"x{q}{h}{s.choice('0123456789abcdef')}{q}"
        if k == 1: return "char[*]", f"x{q}{h}{s.choice(['gg', '0g', 'x1', '-1', '0.'])}{q}"
        b = base64.b64encode(bytes(s.draw(255) for _ in range(3 * s.int(0, 4)))).decode()
        if k == 2: return "char[*]", f"b64{q}{b}{s.choice('ABCxyz019+/')}{q}"
        if k == 3: return "char[*]", f"b64{q}{b}{s.choice(['!AAA', 'A-AA', 'AA_A', 'A===', 'AA=A', 'A=AA', '=AAA', 'AAA==', 'AA==='])}{q}"
        return "char[*]", f"x{q}{h}"

    def nontrivial(self, c):
        return True

    def nt_rule(self):
        return "every case: each one spells a malformed or out-of-range literal"

    def source(self, c):
        fill = "\n".join(f"int ok{i} = {i};" for i in range(c["good"]))
        pre = f"module t;\n{fill}\n"
        if c["where"] == 0: body = f"{c['type']} bad = {c['lit']};\nfn int main() {{ return 0; }}\n"
        elif c["where"] == 1: body = f"fn int main()\n{{\n\t{c['type']} bad = {c['lit']};\n\treturn 0;\n}}\n"
        else: body = f"const {c['type']} BAD = {c['lit']};\nfn int main() {{ return 0; }}\n"
        return pre + body

    def line(self, c):
        src = self.source(c)
        return src[:src.index(c["lit"])].count("\n") + 1

    def render(self, c):
        return {"source": self.source(c), "line": self.line(c)}

    def run(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        import os
        with c3.Tmp() as d:
            with open(f"{d}/p.c3", "w", newline="") as f:
                f.write(self.source(c))
            r = c3.compile_(f"{d}/p.c3", f"{d}/p", ("-C",), std=False, cwd=d, timeout=60)
            if r.code < 0 or r.timeout:
                return f"the compiler {r.how()} on the literal {c['lit']!r}"
            if r.code == 0:
                return f"accepted the malformed or out-of-range literal {c['lit']!r} for {c['type']}"
            n = self.line(c)
            if f"p.c3:{n}:" not in r.text:
                return f"the error for {c['lit']!r} is not on line {n}:\n{r.text[:600]}"
        return None


class C20(pbt.Check):
    id = "C20"
    rule = "integers: above 9; floats: not zero; characters: more than one plain character; strings: an escape or raw string; bytes: more than one; rejected: every case"
    assumptions = ["float16 literals are checked where rounding through double agrees with direct rounding"]
    families = [Ints(), Floats(), Chars(), Strs(), Bytes(), Bad()]


CHECK = C20()
