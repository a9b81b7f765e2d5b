"""L11: BigInt arithmetic is exact within its 8192-bit two's complement capacity."""
import math
from vf import lib

CAP = 8191      # magnitude bits of a value
DIG = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def h(v):
    return f"-{-v:x}" if v < 0 else f"{v:x}"


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def tmod(a, b):
    return a - b * tdiv(a, b)


def radix(v, r):
    if v == 0:
        return "0"
    n, out = abs(v), ""
    while n:
        n, d = divmod(n, r)
        out = DIG[d] + out
    return ("-" if v < 0 else "") + out


def fits(v):
    return -(1 << CAP) <= v < (1 << CAP)


class Big(lib.LibFamily):
    name = "bigint"
    harness = "l11"
    batch = 100
    quick, thorough = 100000, 2000000
    OPS = ["add", "sub", "mul", "div", "mod", "and", "or", "xor", "not", "neg", "abs", "shl", "shr", "cmp", "pred", "str", "modpow", "sqrt",
           "gcd", "lcm", "parse", "i128", "u128", "rand"]

    def big(self, s, bits, neg=True):
        k = s.draw(7)
        n = s.int(0, bits)
        if k == 0:
            v = s.int(0, 12)
        elif k == 1:
            v = (1 << n) + s.int(-1, 1)
        elif k == 2:            # sparse / saturated words
            v = 0
            for _ in range(max(1, n // 32)):
                v = v << 32 | s.choice([0, 0xFFFFFFFF, 0x80000000, 1, 0x7FFFFFFF, 0xFFFFFFFE, 0x10000000])
        elif k == 3:
            v = (1 << (32 * s.int(1, max(1, bits // 32)))) - 1
        else:
            v = s.bits(n)
        v = max(v, 0) & ((1 << bits) - 1)
        return -v if neg and s.bool(1, 3) else v

    def gen(self, s):
        op = s.choice(self.OPS)
        size = s.weighted([(3, 64), (4, 200), (3, 600), (1, 2500)])
        a = b = c = k = 0
        t = ""
        if op in ("add", "sub"):
            m = 8190 if s.bool(1, 6) else size
            a, b = self.big(s, m), self.big(s, m if s.bool() else size)
        elif op in ("mul", "lcm"):
            m = 4090 if s.bool(1, 8) else size
            a, b = self.big(s, m), self.big(s, m)
            if op == "lcm" and (a == 0 or b == 0):
                a = b = 6
            if op == "lcm" and size > 600:
                a, b = a >> 1900, b >> 1900
                a, b = a or 1, b or 1
        elif op in ("div", "mod"):
            a = self.big(s, s.choice([size, 64 + size, 2 * size]))
            b = self.big(s, s.choice([32, 64, 96, size])) or 7
            if s.bool(1, 4):
                a = b * self.big(s, size, False) + s.int(-1, 1)
        elif op in ("and", "or", "xor"):
            a, b = self.big(s, size), self.big(s, size)
        elif op in ("not", "neg", "abs", "pred"):
            a = self.big(s, 8190 if s.bool(1, 6) else size)
        elif op == "shl":
            a = self.big(s, size)
            k = s.choice([s.int(0, 70), s.int(0, 2000), 32 * s.int(0, 10)])
        elif op == "shr":
            a = self.big(s, size)
            k = s.choice([s.int(0, 70), s.int(0, 2600), 32 * s.int(0, 10)])
        elif op == "cmp":
            a = self.big(s, size)
            b = self.big(s, size) if s.bool() else a + s.choice([0, 0, 1, -1, 1 << 32, -(1 << 64)])
        elif op == "str":
            a = self.big(s, size)
            k = s.choice([10, s.int(2, 36)])
        elif op == "modpow":
            c = self.big(s, s.choice([30, 64, 90, 130]), False) + 2
            a = self.big(s, s.choice([30, 64, 160]))
            b = self.big(s, s.choice([4, 30, 70]), False)
        elif op == "sqrt":
            a = self.big(s, s.choice([20, 40, 64, 65, 128, 300]), False)
            if s.bool():
                a = a * a + s.int(-1, 1)
                a = max(a, 0)
        elif op == "gcd":
            size = min(size, 600)
            g = self.big(s, 40, False) + 1
            a, b = self.big(s, size) * g, self.big(s, size) * g
            a, b = a or 6, b or 4
        elif op == "parse":
            k = s.choice([10, s.int(2, 36)])
            t = radix(self.big(s, min(size, 600)), k)
            t = "".join(ch.lower() if s.bool() else ch for ch in t)
            if s.bool(1, 4):
                p = s.draw(len(t))
                t = t[:p] + s.choice([".", " ", "-", "+", "_", "/", ":", "@", "[", "`", "{", DIG[min(k, 35)], "z"]) + t[p:]
            if s.bool(1, 8):
                t = s.choice(["0", "-0", "00", "000" + t])
        elif op == "i128":
            a = s.inum(128, True)
        elif op == "u128":
            a = s.inum(128, False)
        elif op == "rand":
            k = s.int(1, 8190)
        return {"op": op, "a": h(a), "b": h(b), "c": h(c), "k": k, "t": t}

    def text(self, c):
        tail = ""
        if c["op"] == "parse":
            tail = lib.hx(c["t"].encode())
        if c["op"] in ("i128", "u128"):
            return f"{c['op']} 0 0 0 0 {int(c['a'], 16) & ((1 << 128) - 1):x}\n"
        return f"{c['op']} {c['a']} {c['b']} {c['c']} {c['k']} {tail}\n"

    def nontrivial(self, c):
        return len(c["a"]) > 8 or len(c["b"]) > 8

    def want(self, c):
        op = c["op"]
        a, b, m, k = int(c["a"], 16), int(c["b"], 16), int(c["c"], 16), c["k"]
        three = lambda v: " ".join([h(v)] * 3)
        if op == "add": return three(a + b)
        if op == "sub": return three(a - b)
        if op == "mul": return three(a * b)
        if op == "div": return three(tdiv(a, b))
        if op == "mod": return three(tmod(a, b))
        if op == "and": return three(a & b)
        if op == "or": return three(a | b)
        if op == "xor": return three(a ^ b)
        if op == "not": return three(~a)
        if op == "neg": return three(-a)
        if op == "abs": return h(abs(a))
        if op == "shl": return three(a << k)
        if op == "shr": return three(a >> k)
        if op == "cmp": return " ".join(str(int(x)) for x in (a == b, a != b, a == b, a < b, a > b, a <= b, a >= b))
        if op == "pred":
            r = f"{a & 1} {int(a == 1)} {int(a == 0)} {int(a < 0)}"
            return r if a < 0 else r + f" {a.bit_length()}"
        if op == "str":
            t = radix(a, k)
            w = lib.hx(t.encode())
            return w if k != 10 else f"{w} {w} {lib.hx(('<' + t + '>').encode())}"
        if op == "modpow":
            r = pow(abs(a), b, m)
            return h(-r if a < 0 and b & 1 else r)
        if op == "sqrt": return h(math.isqrt(a))
        if op == "gcd": return h(math.gcd(a, b))
        if op == "lcm": return h(math.lcm(a, b))
        if op in ("i128", "u128"): return h(a) if op == "u128" else f"{h(a)} {h(a)}"
        if op == "rand": return f"{k} 0 1"
        if op == "parse":
            t = c["t"]
            n = t[1:] if t[:1] == "-" else t
            if any(ch.upper() not in DIG[:k] for ch in n) or not n:
                return "!string::MALFORMED_INTEGER"
            v = int(n, k)
            if t[0] == "-":
                return h(-v) if v else "0"
            return h(v)


class C(lib.LibCheck):
    id = "L11"
    rule = "an operand longer than one 32-bit word"
    families = [Big()]


CHECK = C()
