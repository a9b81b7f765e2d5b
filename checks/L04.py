"""L04: base64, base32, hex and percent-encoding match RFC 4648 / RFC 3986 and round-trip."""
import base64, random
from vf import lib

STD64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
URL64 = STD64[:62] + b"-_"
STD32 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
HEX32 = b"0123456789ABCDEFGHIJKLMNOPQRSTUV"
ALPHA = {("64", 0): STD64, ("64", 1): URL64, ("32", 0): STD32, ("32", 1): HEX32}
UNRES = b"-_.~"
MODES = [b"", b"$&+,/:;=@", b"!$&'()*+,;=:[]", b";:&=+$,", b"", b"$&+,/:;=?@!()*"]
ALNUM = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


def encode(data, alpha, bits, pad):
    out, acc, n = bytearray(), 0, 0
    for b in data:
        acc, n = (acc << 8) | b, n + 8
        while n >= bits:
            out.append(alpha[(acc >> (n - bits)) & ((1 << bits) - 1)])
            n -= bits
    if n:
        out.append(alpha[(acc << (bits - n)) & ((1 << bits) - 1)])
    group = 4 if bits == 6 else 8
    if pad:
        while len(out) % group:
            out.append(pad)
    return bytes(out)


def decode(text, alpha, bits, pad):
    """(bytes, strict) of a well-formed text (strict: unused bits are zero), or None."""
    group = 4 if bits == 6 else 8
    t = text
    if pad:
        if len(t) % group:
            return None
        k = 0
        while k < group and k < len(t) and t[len(t) - 1 - k] == pad:
            k += 1
        t = t[:len(t) - k]
        if k and k not in ((1, 2) if bits == 6 else (1, 3, 4, 6)):
            return None
    elif len(t) % group in ((1,) if bits == 6 else (1, 3, 6)):
        return None
    acc = n = 0
    out = bytearray()
    for c in t:
        v = alpha.find(c)
        if v < 0:
            return None
        acc, n = (acc << bits) | v, n + bits
        if n >= 8:
            out.append((acc >> (n - 8)) & 255)
            n -= 8
            acc &= (1 << n) - 1
    return bytes(out), acc == 0


def data(s):
    n = s.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, s.int(0, 200)])
    m = s.draw(3)
    if m == 0:
        return bytes([s.choice([0, 255, 65])]) * n
    if m == 1:
        return bytes(s.choice(b"abcXYZ059 %+-_./&=:@!~*'()[],;?#$\"<>\\^`{|}\x00\x7f\x80\xff") for _ in range(n))
    return random.Random(s.bits(32)).randbytes(n)


def mutate(s, t, alpha):
    """A text near a valid one."""
    t = bytearray(t)
    for _ in range(s.int(1, 3)):
        k = s.draw(5)
        p = s.draw(len(t)) if t else 0
        c = s.choice([s.choice(alpha), 61, 0, 255, 32, 10, s.draw(255)])
        if k == 0 and t:
            del t[min(p, len(t) - 1)]
        elif k == 1:
            t.insert(p, c)
        elif k == 2 and t:
            t = t[:p]
        elif k == 3 and t:
            t[len(t) - 1 - s.draw(min(7, len(t) - 1))] = c
        elif t:
            t[min(p, len(t) - 1)] = c
    return bytes(t)


PADS = [61, 0, 61, 0, 42, 126]


class Base(lib.LibFamily):
    harness = "l04"


class Enc(Base):
    name = "base-encode"
    quick, thorough = 8000, 150000

    def gen(self, s):
        return {"op": "e" + s.choice(["64", "32"]), "a": s.draw(1), "pad": s.choice(PADS), "extra": s.choice([0, 0, 0, 1, 9]), "d": data(s).hex()}

    def text(self, c):
        return f"{c['op']} {c['a']} {c['pad']} {c['extra']} x{c['d']}\n"

    def want(self, c):
        w = c["op"][1:]
        e = encode(bytes.fromhex(c["d"]), ALPHA[w, c["a"]], 6 if w == "64" else 5, c["pad"])
        return f"{len(e)} " + f"x{e.hex()} " * 3

    def nontrivial(self, c):
        return bool(c["d"])


class Dec(Base):
    name = "base-decode"
    quick, thorough = 16000, 300000

    def gen(self, s):
        w, a, pad = s.choice(["64", "32"]), s.draw(1), s.choice(PADS)
        alpha, bits = ALPHA[w, a], 6 if w == "64" else 5
        k = s.draw(4)
        t = encode(data(s), alpha, bits, pad)
        if k == 1 or k == 2:
            t = mutate(s, t, alpha)
        elif k == 3:
            t = bytes(s.choice([s.choice(alpha), s.choice(alpha), s.choice(alpha), pad]) for _ in range(s.int(0, 20)))
        return {"op": "d" + w, "a": a, "pad": pad, "extra": s.choice([0, 0, 0, 1, 5, 9]), "d": t.hex(), "k": ["valid", "mutated", "mutated", "random", "valid"][k]}

    def text(self, c):
        return f"{c['op']} {c['a']} {c['pad']} {c['extra']} x{c['d']}\n"

    def expect(self, c):
        w = c["op"][1:]
        return decode(bytes.fromhex(c["d"]), ALPHA[w, c["a"]], 6 if w == "64" else 5, c["pad"])

    def compare(self, c, g):
        e = self.expect(c)
        t = bytes.fromhex(c["d"])
        if e is None:
            return None if "!" in g else f"{c['op']} pad={c['pad']} extra={c['extra']}: malformed {t!r} accepted as {g}"
        w = " ".join([f"x{e[0].hex()}"] * 3)
        if g == w or (not e[1] and g.startswith("!")):
            return None
        return f"{c['op']} pad={c['pad']} extra={c['extra']}: {t!r} gave {g}, expected {w}"

    def labels(self, c):
        return [c["op"], f"{c['op']}-{c['k']}", "well-formed" if self.expect(c) else "malformed"]

    def nontrivial(self, c):
        return bool(c["d"])


class Hex(Base):
    name = "hex"
    quick, thorough = 5000, 80000

    def gen(self, s):
        if s.bool():
            return {"op": "ehex", "d": data(s).hex()}
        t = bytearray(data(s).hex().encode())
        for i in range(len(t)):
            if s.bool(1, 6):
                t[i] = s.choice([s.draw(255), s.choice(b"ABCDEFabcdef0123456789"), 0x2f, 0x3a, 0x40, 0x47, 0x60, 0x67]) if s.bool() else bytes([t[i]]).upper()[0]
        return {"op": "dhex", "d": bytes(t).hex()}

    def text(self, c):
        return f"{c['op']} x{c['d']}\n"

    def compare(self, c, g):
        d = bytes.fromhex(c["d"])
        if c["op"] == "ehex":
            h = "x" + d.hex().encode().hex()
            w = f"{2 * len(d)} {h} {2 * len(d)} {h} {h} {h}"
        else:
            ok = all(x in b"0123456789abcdefABCDEF" for x in d)
            w = " ".join(["x" + d.decode().lower()] * 3) if ok else "!"
            if not ok and g.startswith("!"):
                return None
        return None if g == w else lib.diff(c, g, w)


class Url(Base):
    name = "percent"
    quick, thorough = 8000, 120000

    def gen(self, s):
        m = s.draw(5)
        d = data(s)
        if s.bool():
            return {"op": "eurl", "m": m, "d": d.hex()}
        k = s.draw(2)
        t = self.enc(d, m)
        if k == 1:
            t = mutate(s, t, b"%%%+0aAfFgG")
        elif k == 2:
            t = bytes(s.choice(b"%%%+ 0123aAfFgGzZ/") for _ in range(s.int(0, 14)))
        return {"op": "durl", "m": m, "d": t.hex()}

    @staticmethod
    def enc(d, m):
        o = bytearray()
        for b in d:
            if b in ALNUM or b in UNRES or b in MODES[m]:
                o.append(b)
            elif b == 32 and m == 4:
                o.append(43)
            else:
                o += b"%%%02X" % b
        return bytes(o)

    def text(self, c):
        return f"{c['op']} {c['m']} x{c['d']}\n"

    def compare(self, c, g):
        d, m = bytes.fromhex(c["d"]), c["m"]
        if c["op"] == "eurl":
            e = self.enc(d, m)
            w = f"{len(e)} x{e.hex()} x{e.hex()}"
        else:
            o, i = bytearray(), 0
            while i < len(d):
                if d[i] == 37:
                    h = d[i + 1:i + 3]
                    if len(h) < 2 or any(x not in b"0123456789abcdefABCDEF" for x in h):
                        o = None
                        break
                    o.append(int(h, 16))
                    i += 3
                else:
                    o.append(32 if d[i] == 43 and m == 4 else d[i])
                    i += 1
            if o is None:
                return None if g.startswith("!len !") else f"malformed {d!r} accepted: {g}"
            w = f"{len(o)} x{o.hex()} x{o.hex()}"
        return None if g == w else lib.diff(c, g, w)


class L04(lib.LibCheck):
    id = "L04"
    rule = "a case is non-trivial if its input is not empty; distinct by its whole input"
    assumptions = ["the encoders in the check implement RFC 4648 and RFC 3986", "non-zero unused bits in the last group may be accepted or rejected"]
    families = [Enc(), Dec(), Hex(), Url()]


CHECK = L04()
