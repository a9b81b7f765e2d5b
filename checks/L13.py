"""L13: integer helpers are exact for every operand of every width."""
import math, struct
from fractions import Fraction
from vf import lib

TYPES = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128"]


def wrap(v, n, signed):
    v &= (1 << n) - 1
    return v - (1 << n) if signed and v >> (n - 1) else v


def p128(v):
    v &= (1 << 128) - 1
    return f"{v >> 64:x}:{v & ((1 << 64) - 1):x}"


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def tmod(a, b):
    return a - b * tdiv(a, b)


UN = ["popcount", "ctz", "clz", "reverse", "bswap", "abs", "sign", "even", "odd", "pow2", "next2", "be", "le"]
BI = ["sat_add", "sat_sub", "sat_mul", "sat_shl", "overflow_add", "overflow_sub", "overflow_mul", "min", "max", "gcd", "lcm"]
TRI = ["fshl", "fshr", "rotl", "rotr", "min3", "max3", "bmin3", "bmax3", "clamp", "gcd3", "muldiv", "vmuldiv", "vec"]


def popcount(u): return bin(u).count("1")
def ctz(u, n): return n if u == 0 else (u & -u).bit_length() - 1
def clz(u, n): return n - u.bit_length()
def fshl(a, b, s, n): s %= n; return (((a << n) | b) << s >> n) & ((1 << n) - 1)
def fshr(a, b, s, n): s %= n; return (((a << n) | b) >> s) & ((1 << n) - 1)


class Ints(lib.LibFamily):
    name = "int-helpers"
    harness = "l13"
    batch = 200
    quick, thorough = 60000, 1000000

    def gen(self, s):
        t = s.choice(TYPES)
        n, sg = int(t[1:]), t[0] == "i"
        op = s.choice(s.choice([UN, BI, TRI]))
        v = [s.inum(n, sg) for _ in range(3)]
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        if op in ("abs", "gcd", "gcd3", "lcm"):
            v = [x + 1 if x == lo and sg else x for x in v]
        if op in ("gcd", "gcd3", "lcm") and s.bool():
            g = s.int(1, max(1, math.isqrt(hi)))
            v = [x // max(1, abs(x) // max(1, hi // g) + 1) for x in v]
            v = [x if lo < x * g <= hi else 1 for x in v]
            v = [x * g if lo < x * g <= hi else x for x in v]
        if op == "lcm":
            while v[0] and v[1] and math.lcm(v[0], v[1]) > hi:
                v[0] = tdiv(v[0], 2)
        if op in ("pow2", "next2"):
            v[0] = abs(v[0]) & hi
            if op == "next2" and v[0] > (hi + 1) // 2:
                v[0] >>= 1
            if s.bool(1, 3):
                v[0] = 1 << s.draw(n - 2)
        if op == "sat_shl":
            v[1] = s.draw(n - 1)
        if op == "clamp":
            v[1], v[2] = sorted(v[1:])
        if op in ("muldiv", "vmuldiv"):
            if n == 128:
                op = "popcount"
            else:
                if v[2] == 0:
                    v[2] = 1
                ok = False
                for _ in range(300):
                    parts = []
                    for x in ((v[0], v[1]) if op == "vmuldiv" else (v[0],)):
                        q, r = tdiv(x, v[2]), tmod(x, v[2])
                        parts += [q, r, v[1] * q, v[1] * r, v[1] * q + tdiv(v[1] * r, v[2])]
                    if all(lo <= p <= hi for p in parts):
                        ok = True
                        break
                    k = 1 if abs(v[1]) > 1 else 0
                    if v[k] == -1 or v[2] == -1:
                        v[2], v[k] = abs(v[2]), 0
                    v[k] = tdiv(v[k], 2)
                if not ok:
                    v = [1, 1, 1]
        if n == 8 and op in ("bswap", "be", "le"):
            op = "reverse"
        return {"op": op, "t": t, "v": [x & ((1 << n) - 1) for x in v]}

    def text(self, c):
        return f"{c['t']} {c['op']} " + " ".join(f"{x:x}" for x in c["v"]) + "\n"

    def want(self, c):
        t, op = c["t"], c["op"]
        n, sg = int(t[1:]), t[0] == "i"
        m = (1 << n) - 1
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, m)
        ua, ub, uc = c["v"]
        a, b, d = (wrap(x, n, sg) for x in c["v"])
        o = lambda x: p128(x & m)
        sat = lambda x: o(max(lo, min(hi, x)))
        ovf = lambda x: o(x) if lo <= x <= hi else "!math::OVERFLOW"
        if op == "popcount": return str(popcount(ua))
        if op == "ctz": return str(ctz(ua, n))
        if op == "clz": return str(clz(ua, n))
        if op == "reverse": return o(int(format(ua, f"0{n}b")[::-1], 2))
        if op == "bswap": return o(int.from_bytes(ua.to_bytes(n // 8, "little"), "big"))
        if op == "fshl": return o(fshl(ua, ub, uc, n))
        if op == "fshr": return o(fshr(ua, ub, uc, n))
        if op == "rotl": return o(fshl(ua, ua, uc, n))
        if op == "rotr": return o(fshr(ua, ua, uc, n))
        if op == "sat_add": return sat(a + b)
        if op == "sat_sub": return sat(a - b)
        if op == "sat_mul": return sat(a * b)
        if op == "sat_shl": return sat(a << b)
        if op == "overflow_add": return ovf(a + b)
        if op == "overflow_sub": return ovf(a - b)
        if op == "overflow_mul": return ovf(a * b)
        if op == "abs": return o(abs(a))
        if op == "sign": return o((a > 0) - (a < 0))
        if op == "min": return o(min(a, b))
        if op == "max": return o(max(a, b))
        if op in ("min3", "bmin3"): return o(min(a, b, d))
        if op in ("max3", "bmax3"): return o(max(a, b, d))
        if op == "clamp": return o(max(b, min(a, d)))
        if op == "gcd": return o(math.gcd(a, b))
        if op == "gcd3": return o(math.gcd(a, b, d))
        if op == "lcm": return o(math.lcm(a, b))
        if op == "even": return str(int(a % 2 == 0))
        if op == "odd": return str(a % 2)
        if op == "pow2": return str(int(a > 0 and a & (a - 1) == 0))
        if op == "next2": return o(1 if a <= 1 else 1 << (a - 1).bit_length())
        if op == "muldiv": return o(tdiv(a * b, d))
        if op == "vmuldiv": return " ".join(o(tdiv(x * b, d)) for x in (a, b, a, b))
        if op == "vec":
            va, vb, vc = [ua, ub, uc, ua ^ ub], [uc, ua, (ub + uc) & m, ub], [ub, uc, ua, ~uc & m]
            r = []
            for x, y, z in zip(va, vb, vc):
                r += [o(popcount(x)), o(ctz(x, n)), o(clz(x, n)), o(fshl(x, y, z, n)), o(fshr(x, y, z, n)), o(fshl(x, x, z, n)), o(fshr(x, x, z, n))]
            return " ".join(r)
        if op in ("be", "le"):
            return "x" + ua.to_bytes(n // 8, "big" if op == "be" else "little").hex() + " " + o(ua)
        raise ValueError(op)

    def labels(self, c):
        return [c["op"], c["t"]]

    def nontrivial(self, c):
        return any(x > 1 for x in c["v"])


def round_float(v, mant, bits):
    """The bits of the integer v rounded to nearest even as an IEEE float."""
    s, v = v < 0, abs(v)
    fmt = "<f" if bits == 32 else "<d"
    if v:
        e = v.bit_length() - mant
        if e > 0:
            q, r = v >> e, v & ((1 << e) - 1)
            half = 1 << (e - 1)
            if r > half or (r == half and q & 1):
                q += 1
            v = q << e
    f = float(v)
    if bits == 32 and f >= 2.0 ** 128:
        f = math.inf
    f = -f if s else f
    return struct.unpack("<I" if bits == 32 else "<Q", struct.pack(fmt, f))[0]


def frombits(u, bits):
    return struct.unpack("<f" if bits == 32 else "<d", struct.pack("<I" if bits == 32 else "<Q", u))[0]


DIVS = ["divti3", "modti3", "udivti3", "umodti3", "multi3"]
SHS = ["lshrti3", "ashrti3", "ashlti3"]
I2F = ["floattisf", "floattidf", "floatuntisf", "floatuntidf"]
F2I = ["fixunsdfti", "fixunssfti", "fixdfti", "fixsfti"]


class Runtime(lib.LibFamily):
    name = "runtime-128"
    harness = "l13"
    batch = 200
    quick, thorough = 30000, 600000

    def gen(self, s):
        op = s.choice(s.choice([DIVS, DIVS, SHS, I2F, F2I, ["powidf2", "roundeven", "roundevenf"]]))
        a, b, n = s.inum(128, False), 0, 0
        if op in DIVS:
            b = s.inum(s.choice([128, 128, 64, 96, 32, 127]), False)
            if op != "multi3":
                b = b or 1
                if s.bool(1, 3):
                    # near an exact quotient
                    a = (b * s.inum(s.int(1, 100), False) + s.int(0, 2) - 1) & ((1 << 128) - 1)
                if op in ("divti3", "modti3") and a == 1 << 127 and b == (1 << 128) - 1:
                    b = 1
        elif op in SHS:
            n = s.draw(127)
        elif op in I2F:
            if s.bool():
                # near a rounding boundary
                mant = 24 if op.endswith("sf") else 53
                k = s.int(mant + 1, 127)
                a = (1 << k) | (s.bits(mant) << (k - mant)) | (1 << (k - mant - 1) if k > mant else 0)
                a = (a + s.int(0, 2) - 1) & ((1 << 128) - 1)
        elif op in F2I:
            dbl = op.endswith("dfti")
            uns = "uns" in op
            e = s.int(0, 131 if uns else 130) - 3
            f = math.ldexp(1 + s.bits(52) / 2 ** 52, e)
            lim = 2.0 ** 128 if uns else 2.0 ** 127
            while f >= lim:
                f /= 2
            if not uns and s.bool():
                f = -f
            a = struct.unpack("<Q", struct.pack("<d", f))[0]
            if not dbl:
                f = min(f, 2.0 ** 126) if not uns else min(f, 2.0 ** 127)
                a = struct.unpack("<I", struct.pack("<f", f))[0]
        elif op == "powidf2":
            a = struct.unpack("<Q", struct.pack("<d", (s.int(1, 400) / 100) * (-1 if s.bool() else 1)))[0]
            n = (s.int(0, 80) - 40) & 0xffffffff
        else:
            k = s.draw(3)
            f = s.inum(20, True) + s.choice([0, .5, .25, .75]) if k else s.inum(54, True) / 2.0
            if op == "roundeven":
                a = struct.unpack("<Q", struct.pack("<d", f))[0]
            else:
                a = struct.unpack("<I", struct.pack("<f", f))[0]
        return {"op": op, "a": a, "b": b, "n": n}

    def text(self, c):
        return f"rt {c['op']} {c['a']:x} {c['b']:x} {c['n']}\n"

    def compare(self, c, g):
        op, a, b, n = c["op"], c["a"], c["b"], c["n"]
        sa, sb = wrap(a, 128, True), wrap(b, 128, True)
        if op == "divti3": w = p128(tdiv(sa, sb))
        elif op == "modti3": w = p128(tmod(sa, sb))
        elif op == "udivti3": w = p128(a // b)
        elif op == "umodti3": w = p128(a % b)
        elif op == "multi3": w = p128(a * b)
        elif op == "lshrti3": w = p128(a >> n)
        elif op == "ashrti3": w = p128(sa >> n)
        elif op == "ashlti3": w = p128(a << n)
        elif op == "floattisf": w = f"{round_float(sa, 24, 32):x}"
        elif op == "floattidf": w = f"{round_float(sa, 53, 64):x}"
        elif op == "floatuntisf": w = f"{round_float(a, 24, 32):x}"
        elif op == "floatuntidf": w = f"{round_float(a, 53, 64):x}"
        elif op in F2I: w = p128(int(frombits(a, 64 if op.endswith("dfti") else 32)))
        elif op == "powidf2":
            e = wrap(n, 32, True)
            x = Fraction(frombits(a, 64)) ** e
            y = Fraction(frombits(int(g, 16), 64))
            return None if abs(y - x) <= abs(x) * Fraction(2 * abs(e) + 4, 1 << 52) else f"{g} is not {float(x)}"
        elif op == "roundeven":
            f = frombits(a, 64)
            w = f"{struct.unpack('<Q', struct.pack('<d', math.copysign(float(round(f)), f)))[0]:x}"
        else:
            f = frombits(a, 32)
            w = f"{struct.unpack('<I', struct.pack('<f', math.copysign(float(round(f)), f)))[0]:x}"
        return None if g == w else f"{op} a={a:x} b={b:x} n={n}: got {g}, expected {w}"

    def nontrivial(self, c):
        return c["a"] > 1


class L13(lib.LibCheck):
    id = "L13"
    rule = "a case is one call of one helper on one operand tuple; non-trivial if some operand exceeds 1; distinct by operation, type and operands"
    assumptions = ["operands outside a helper's domain are not generated: abs/gcd/lcm of the minimum, shift counts of a saturating shift at or above the width, lcm and muldiv whose result or remainder product does not fit"]
    families = [Ints(), Runtime()]


CHECK = L13()
