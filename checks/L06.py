"""L06: hashes, MACs and ciphers match their standards for any chunking."""
import hashlib, hmac, zlib
from vf import lib
from vf.lib import hx

M64 = (1 << 64) - 1


def crc64(data, c=0):
    for b in data:
        c ^= b << 56
        for _ in range(8):
            c = ((c << 1) ^ 0x42f0e1eba9ea3693) & M64 if c >> 63 else (c << 1) & M64
    return c


def fnv(data, bits):
    h, p = (0x811c9dc5, 0x01000193) if bits == 32 else (0xcbf29ce484222325, 0x100000001b3)
    for b in data:
        h = ((h ^ b) * p) & ((1 << bits) - 1)
    return h


def rc4(key, data):
    s = list(range(256))
    j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255
        s[i], s[j] = s[j], s[i]
    i = j = 0
    out = bytearray()
    for b in data:
        i = (i + 1) & 255
        j = (j + s[i]) & 255
        s[i], s[j] = s[j], s[i]
        out.append(b ^ s[(s[i] + s[j]) & 255])
    return bytes(out)


SIZES = [0, 1, 2, 3, 8, 15, 16, 17, 31, 54, 55, 56, 57, 62, 63, 64, 65, 66, 111, 112, 119, 120, 121, 127, 128, 129, 183, 192, 255, 256]


def blob(s, big=False):
    k = s.draw(5)
    if k <= 2:
        n = s.choice(SIZES)
    elif k == 3:
        n = s.int(0, 40)
    else:
        n = s.int(0, 6000 if big else 700)
    m = s.draw(3)
    if m == 0:
        return bytes([s.draw(255)]) * n
    seed = s.bits(32)
    if m == 1:
        return bytes((seed + i * 7) & 255 for i in range(n))
    import random
    return random.Random(seed).randbytes(n)


HASH = {"md5": 16, "sha1": 20, "sha256": 32}
SUM = {"crc32": lambda d: zlib.crc32(d), "crc64": crc64, "adler32": lambda d: zlib.adler32(d),
       "fnv32a": lambda d: fnv(d, 32), "fnv64a": lambda d: fnv(d, 64)}


class Base(lib.LibFamily):
    harness = "l06"


class Chunked(Base):
    name = "hash-chunked"
    quick, thorough = 24000, 400000

    def gen(self, s):
        op = s.choice(list(HASH) + list(SUM))
        one = s.bool(1, 4)
        parts = [blob(s, op not in ("crc64",))] if one else s.list(0, 7, lambda: blob(s))
        return {"op": op + ("h" if one else ""), "parts": [p.hex() for p in parts]}

    def text(self, c):
        p = ["x" + x for x in c["parts"]]
        return f"{c['op']} " + (p[0] if c["op"][-1] == "h" else f"{len(p)} " + " ".join(p)) + "\n"

    def want(self, c):
        op = c["op"][:-1] if c["op"][-1] == "h" else c["op"]
        d = bytes.fromhex("".join(c["parts"]))
        return "x" + hashlib.new(op, d).hexdigest() if op in HASH else str(SUM[op](d))

    def nontrivial(self, c):
        return sum(map(len, c["parts"])) > 0


class PerByte(Base):
    name = "checksum-per-byte"
    quick, thorough = 4000, 60000

    def gen(self, s):
        op = s.choice(["crc32s", "crc64s", "adler32s"])
        return {"op": op, "seed": s.bits(32) if s.bool() and op != "adler32s" else 0, "d": blob(s).hex()}

    def text(self, c):
        return f"{c['op']} " + ("" if c["op"] == "adler32s" else f"{c['seed']} ") + f"x{c['d']}\n"

    def want(self, c):
        d = bytes.fromhex(c["d"])
        if c["op"] == "adler32s":
            return str(zlib.adler32(d))
        if c["op"] == "crc32s":
            return str(zlib.crc32(d, c["seed"] ))
        return str(crc64(d, c["seed"]))


class Mac(Base):
    name = "hmac"
    quick, thorough = 9000, 160000

    def gen(self, s):
        h = s.choice(list(HASH))
        one = s.bool(1, 4)
        key = blob(s)
        return {"op": f"hmac-{h}" + ("h" if one else ""), "key": key.hex(), "parts": [p.hex() for p in ([blob(s)] if one else s.list(0, 5, lambda: blob(s)))]}

    def text(self, c):
        p = ["x" + x for x in c["parts"]]
        return f"{c['op']} x{c['key']} " + (p[0] if c["op"][-1] == "h" else f"{len(p)} " + " ".join(p)) + "\n"

    def want(self, c):
        op = c["op"].split("-")[1].rstrip("h")
        return "x" + hmac.new(bytes.fromhex(c["key"]), bytes.fromhex("".join(c["parts"])), op).hexdigest()


class Pbkdf(Base):
    name = "pbkdf2"
    quick, thorough = 3000, 50000

    def gen(self, s):
        h = s.choice(list(HASH))
        return {"op": f"pb-{h}", "pw": blob(s)[:200].hex(), "salt": blob(s)[:200].hex(), "it": s.int(1, 9), "n": s.choice([1, 7, 16, 20, 32, 33, 40, 64, 65, 100, s.int(1, 150)])}

    def text(self, c):
        return f"{c['op']} x{c['pw']} x{c['salt']} {c['it']} {c['n']}\n"

    def want(self, c):
        return "x" + hashlib.pbkdf2_hmac(c["op"].split("-")[1], bytes.fromhex(c["pw"]), bytes.fromhex(c["salt"]), c["it"], c["n"]).hex()


class Rc4(Base):
    name = "rc4"
    quick, thorough = 5000, 80000

    def gen(self, s):
        one = s.bool(1, 3)
        return {"op": "rc4h" if one else "rc4", "key": (blob(s)[:255] or b"k").hex(), "parts": [p.hex() for p in ([blob(s)] if one else s.list(1, 5, lambda: blob(s)))]}

    def text(self, c):
        p = ["x" + x for x in c["parts"]]
        return f"{c['op']} x{c['key']} " + (p[0] if c["op"] == "rc4h" else f"{len(p)} " + " ".join(p)) + "\n"

    def want(self, c):
        d = [bytes.fromhex(x) for x in c["parts"]]
        o = rc4(bytes.fromhex(c["key"]), b"".join(d))
        r, i = [], 0
        for x in d:
            r.append(hx(o[i:i + len(x)]))
            i += len(x)
        return " ".join(r)


class Cmp(Base):
    name = "safe-compare"
    quick, thorough = 4000, 40000

    def gen(self, s):
        a = blob(s)[:300]
        b = bytearray(a)
        for _ in range(s.draw(2)):
            if b:
                b[s.draw(len(b) - 1)] ^= 1 << s.draw(7)
        return {"op": "cmp", "a": a.hex(), "b": bytes(b).hex()}

    def text(self, c):
        return f"cmp x{c['a']} x{c['b']}\n"

    def want(self, c):
        return "1" if c["a"] == c["b"] else "0"


class L06(lib.LibCheck):
    id = "L06"
    rule = "a case is non-trivial if some message byte is processed; distinct by its whole input"
    assumptions = ["hashlib, hmac and zlib of the system Python implement the standards"]
    families = [Chunked(), PerByte(), Mac(), Pbkdf(), Rc4(), Cmp()]


CHECK = L06()
