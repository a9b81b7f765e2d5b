"""C09: bitstructs against a model of the bits."""
from vf import pbt, pf

INTS = {"ichar": (8, 1), "char": (8, 0), "short": (16, 1), "ushort": (16, 0), "int": (32, 1), "uint": (32, 0), "long": (64, 1), "ulong": (64, 0),
        "int128": (128, 1), "uint128": (128, 0), "Dist": (32, 1), "Udist": (8, 0)}
BASE = {"Dist": "int", "Udist": "char"}
BACK = ["char", "ichar", "short", "ushort", "int", "uint", "long", "ulong", "int128", "uint128"]
OPS = ["+", "-", "*", "&", "|", "^"]


def wrap(v, w, signed):
    v &= (1 << w) - 1
    return v - (1 << w) if signed and v >> (w - 1) else v


class Model:
    def __init__(self, c):
        self.c = c
        self.arr = c["back"].startswith("char[")
        self.size = int(c["back"][5:-1]) if self.arr else INTS[c["back"]][0] // 8
        self.swap = c["endian"] == "@bigendian"
        self.v = 0  # The logical bits.

    def put(self, f, v):
        w = f["hi"] - f["lo"] + 1
        v &= (1 << w) - 1
        if self.arr and self.swap and w > 8:
            v = int.from_bytes(v.to_bytes(w // 8, "little"), "big")
        self.v = self.v & ~(((1 << w) - 1) << f["lo"]) | v << f["lo"]

    def get(self, f):
        w = f["hi"] - f["lo"] + 1
        v = self.v >> f["lo"] & (1 << w) - 1
        if self.arr and self.swap and w > 8:
            v = int.from_bytes(v.to_bytes(w // 8, "little"), "big")
        if f["t"] in ("bool", "Enu"):
            return v
        return wrap(v, w, INTS[f["t"]][1])

    def mem(self):
        return self.v.to_bytes(self.size, "big" if self.swap and not self.arr else "little")


def lit(t, v):
    if t == "bool":
        return "true" if v else "false"
    if t == "Enu":
        return f"Enu.E{v}"
    b, s = INTS[t]
    if b == 128:
        m = v & (1 << 128) - 1
        return f"(({t})(((uint128)0x{m >> 64:x}UL << 64) | (uint128)0x{m & (1 << 64) - 1:x}UL))"
    return f"(({t})0x{v & (1 << 64) - 1:x}UL)"


def rt(t, v):
    """A value the optimiser cannot see."""
    if t == "bool":
        return f"(idl({int(bool(v))}) != 0)"
    if t == "Enu":
        return f"Enu.from_ordinal((char)idl({v}))"
    b, s = INTS[t]
    if b == 128:
        m = v & (1 << 128) - 1
        return f"(({t})idw(((uint128)0x{m >> 64:x}UL << 64) | (uint128)0x{m & (1 << 64) - 1:x}UL))"
    return f"(({t})(ulong)idl((long)0x{v & (1 << 64) - 1:x}UL))"


def anyval(s, f):
    """Any value of the member's type."""
    if f["t"] == "bool":
        return s.draw(1)
    if f["t"] == "Enu":
        return s.draw(3)
    return s.inum(INTS[f["t"]][0], INTS[f["t"]][1])


def inval(s, f):
    """A value that fits the bits."""
    if f["t"] in ("bool", "Enu"):
        return anyval(s, f)
    return s.inum(f["hi"] - f["lo"] + 1, INTS[f["t"]][1])


def lossy(c, f):
    """Stores to these at run time hit the known finding bitstruct-array-partial-byte (the goldens of the test suite demand it)."""
    return c["back"].startswith("char[") and f["t"] != "bool" and f["hi"] % 8 != 7 and (f["lo"] % 8 == 0 or f["hi"] // 8 != f["lo"] // 8)


class Bits(pf.PF):
    name = "histories"
    quick, thorough = 3000, 60000
    levels = pf.LEVELS
    pre = pf.PRE + "enum Enu : char { E0, E1, E2, E3 }\ntypedef Dist = int;\ntypedef Udist = char;\n"

    def gen(self, s):
        arr = s.bool(2, 5)
        n = s.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 20]) if arr else 0
        back = f"char[{n}]" if arr else s.choice(BACK)
        N = n * 8 if arr else INTS[back][0]
        endian = s.weighted([(3, ""), (1, "@bigendian"), (1, "@littleendian")])
        overlap = s.bool(1, 5)
        be = arr and endian == "@bigendian"
        fields, consecutive = [], s.bool(1, 10)
        if consecutive:
            overlap = False
            fields = [{"t": "bool", "lo": i, "hi": i} for i in range(min(N, s.int(1, 9)))]
        else:
            pos = 0
            for _ in range(s.int(1, 6)):
                lo = s.int(0, N - 1) if overlap else pos + s.weighted([(2, 0), (1, s.int(0, 9))])
                if lo >= N:
                    break
                t = s.weighted([(5, s.choice(sorted(INTS))), (2, "bool"), (1, "Enu")])
                if t == "bool":
                    hi = lo
                elif t == "Enu":
                    hi = lo + s.int(1, 3)
                else:
                    hi = lo + s.weighted([(2, s.int(0, min(INTS[t][0], N) - 1)), (1, INTS[t][0] - 1), (1, s.int(0, 8))])
                    hi = min(hi, lo + INTS[t][0] - 1)
                if be and hi - lo > 7:
                    w = s.choice([8, 16, 24, 32, 40, 48, 56, 64, 72, 128])
                    if w > INTS[t][0]: w = 8
                    hi = lo + w - 1
                if hi >= N:
                    if be or t == "Enu":
                        continue
                    hi = N - 1
                fields.append({"t": t, "lo": lo, "hi": hi})
                pos = max(pos, hi + 1)
            if not fields:
                fields = [{"t": "bool", "lo": 0, "hi": 0}]
        nest = s.choice(["plain", "plain", "struct", "anon", "array", "ptr", "global"])
        if nest == "anon" and not fields:
            nest = "plain"
        nf = len(fields)
        ops = []
        ro = [lossy({"back": back}, f) for f in fields]
        stores = [i for i in range(nf) if not ro[i]]
        if (not stores or any(ro[i] and fields[i]["t"] == "Enu" for i in range(nf))) and nest == "anon":
            nest = "plain"
        if any(ro[i] and fields[i]["t"] == "Enu" for i in range(nf)) or not stores:
            # Make the first one storable.
            fields = [{"t": "bool", "lo": f["lo"], "hi": f["lo"]} if r else f for f, r in zip(fields, ro)]
            ro = [False] * nf
            stores = list(range(nf))

        def init():
            fs = [i for i in range(nf) if s.bool(3, 4)]
            if overlap:
                fs = fs[:1]
            if nest == "anon":
                fs = [i for i in fs if not ro[i]]
            return [[i, inval(s, fields[i]), 0 if any(ro) else s.draw(1)] for i in fs]
        for _ in range(s.int(2, 10)):
            k = s.draw(13)
            i = s.choice(stores)
            f = fields[i]
            if k <= 1:
                ops.append(["set", i, anyval(s, f)])
            elif k == 2:
                ops.append(["setc", i, inval(s, f)])
            elif k <= 5 and f["t"] not in ("bool", "Enu", "Dist", "Udist"):
                ops.append(["comp", i, s.choice(OPS), anyval(s, f)])
            elif k == 6 and f["t"] not in ("bool", "Enu"):
                ops.append(["inc", i, s.choice(["++x", "x++", "--x", "x--"])])
            elif k == 7 and f["t"] not in ("bool", "Enu", "Dist", "Udist"):
                ops.append(["shift", i, s.choice(["<<", ">>"]), s.int(0, INTS[f["t"]][0] - 1)])
            elif k == 8 and nest != "anon":
                ops.append(["lit", init(), s.bool()])
            elif k == 9 and nest != "anon":
                ops.append(["whole", s.choice(["&", "|", "^"]), init(), s.bool()])
            elif k == 10 and nest != "anon":
                ops.append(["not"])
            elif k == 11 and nest != "anon":
                ops.append(["pass"])
            elif k == 12 and nest != "anon":
                ops.append(["raw", s.bits(N)])
            elif nest != "anon":
                ops.append(["eq", init()])
            else:
                ops.append(["set", i, anyval(s, f)])
        return {"back": back, "endian": endian, "overlap": overlap, "cons": consecutive, "fields": fields, "nest": nest,
                "init": init(), "const": [[i, inval(s, fields[i])] for i in (range(nf) if not overlap else [0])], "ops": ops, "level": s.draw(len(self.levels) - 1), "desig": s.draw(2)}

    def valid(self, c):
        nf = len(c["fields"])
        if not nf or c["back"] not in BACK and not (c["back"].startswith("char[") and int(c["back"][5:-1] or 0) > 0):
            return False
        N = int(c["back"][5:-1]) * 8 if c["back"].startswith("char[") else INTS[c["back"]][0]
        be = c["back"].startswith("char[") and c["endian"] == "@bigendian"
        pos = -1
        for f in c["fields"]:
            w = f["hi"] - f["lo"] + 1
            if f["t"] not in INTS and f["t"] not in ("bool", "Enu") or f["lo"] < 0 or f["hi"] < f["lo"] or f["hi"] >= N: return False
            if w > (1 if f["t"] == "bool" else 8 if f["t"] == "Enu" else INTS[f["t"]][0]): return False
            if f["t"] == "Enu" and w < 2: return False
            if be and w > 8 and w % 8: return False
            if not c["overlap"] and f["lo"] <= pos: return False
            pos = max(pos, f["hi"])
        if c["cons"] and any(f["t"] != "bool" or f["lo"] != i or f["hi"] != i for i, f in enumerate(c["fields"])): return False
        ix = [o[1] for o in c["ops"] if o[0] in ("set", "setc", "comp", "inc", "shift")] + [x[0] for x in c["init"] + c["const"]]
        for o in c["ops"]:
            if o[0] in ("lit", "eq"): ix += [x[0] for x in o[1]]
            if o[0] == "whole": ix += [x[0] for x in o[2]]
        if any(i >= nf or i < 0 for i in ix): return False
        ro = [lossy(c, f) for f in c["fields"]]
        if any(r and f["t"] == "Enu" for r, f in zip(ro, c["fields"])): return False
        if any(ro[o[1]] for o in c["ops"] if o[0] in ("set", "setc", "comp", "inc", "shift")): return False
        if any(ro) and (c["nest"] == "anon" and any(ro[x[0]] for x in c["init"]) or any(x[2] for x in c["init"] + [y for o in c["ops"] if o[0] in ("lit", "eq", "whole") for y in o[2 if o[0] == "whole" else 1]])): return False
        for o in c["ops"]:
            if o[0] == "set" and c["fields"][o[1]]["t"] == "Enu" and not 0 <= o[2] <= 3: return False
            if o[0] in ("comp", "shift", "inc") and c["fields"][o[1]]["t"] in ("bool", "Enu"): return False
            if o[0] in ("comp", "shift") and c["fields"][o[1]]["t"] in BASE: return False
        return c["nest"] != "anon" or all(o[0] in ("set", "setc", "comp", "inc", "shift") for o in c["ops"])

    def labels(self, c):
        return ["array" if c["back"].startswith("char[") else "integer", c["endian"] or "native", c["nest"], "overlap" if c["overlap"] else "disjoint"] + sorted({o[0] for o in c["ops"]})

    def nontrivial(self, c):
        return len(c["fields"]) >= 2 and len(c["ops"]) >= 2

    def emit(self, k, c):
        m = Model(c)
        F = c["fields"]
        B = f"Bs{k}"
        body = " ".join(f"{f['t']} f{i}" + (";" if c["cons"] else f" : {f['lo']};" if f["t"] == "bool" else f" : {f['lo']}..{f['hi']};") for i, f in enumerate(F))
        attrs = f"{c['endian']} {'@overlap' if c['overlap'] else ''}"
        D = [f"bitstruct {B} : {c['back']} {attrs} {{ {body} }}"]
        W, b = [], []
        ini = lambda xs: "{ " + ", ".join(f".f{i} = " + (rt if len(x) and x[0] else lit)(F[i]["t"], v) for i, v, *x in xs) + " }" if xs else "{}"

        def after(xs):
            n = Model(c)
            for i, v, *_ in xs:
                n.put(F[i], v)
            return n.v
        # The dump function.
        d = []
        for i, f in enumerate(F):
            if f["t"] == "bool": d.append(f'pl("f{i}", p.f{i} ? 1 : 0);')
            elif f["t"] == "Enu": d.append(f'pl("f{i}", p.f{i}.ordinal);')
            elif INTS[f["t"]][0] == 128: d.append(f'pw("f{i}", (uint128)p.f{i});')
            else: d.append(f'pl("f{i}", (long)p.f{i});')
        size = m.size
        nest = c["nest"]

        def dumped(n):
            r = []
            for i, f in enumerate(F):
                v = n.get(f)
                r.append(f"f{i}=" + (pf.u128(v) if f["t"] in INTS and INTS[f["t"]][0] == 128 else str(wrap(v, 64, 1))))
            return r + ["mem=" + n.mem().hex()]
        pos = lambda q: q
        if nest == "anon":
            D.append(f"struct St{k} {{ char c; bitstruct : {c['back']} {attrs} {{ {body} }} short e; }}")
            D.append(f"fn void dump{k}(St{k}* p) @noinline {{ {' '.join(d)} pz(\"mem\", (char*)&p.e - {size + self.pad(c)}, {size}); pl(\"rest\", (long)p.c * 100 + (long)p.e); }}")
            one = [(rt if len(x) and x[0] else lit)(F[i]["t"], v) for i, v, *x in c["init"]]
            des = "{ " + ", ".join([".c = 3"] + [f".f{i} = {v}" for (i, *_), v in zip(c["init"], one)] + [".e = 7"]) + " }"
            if c.get("desig"): b.append(f"St{k} x = {des};" if c["desig"] == 1 else f"St{k} x @noinit; x = {des};")
            else: b.append(f"St{k} x; x.c = 3; x.e = 7;")
            X, rest = "x", ["rest=307"]
            DUMP = f"dump{k}(&x);"
            for i, v, *x in c["init"] if not c.get("desig") else []:
                b.append(f"x.f{i} = {lit(F[i]['t'], v)};")
        else:
            D.append(f"fn void dump{k}({B}* p) @noinline {{ {' '.join(d)} pz(\"mem\", p, {size}); }}")
            rest = []
            if nest == "struct":
                D.append(f"struct St{k} {{ char c; {B} x; char e; }}")
                one = [(rt if len(x) and x[0] else lit)(F[i]["t"], v) for i, v, *x in c["init"]]
                des = "{ " + ", ".join([".c = 3"] + [f".x.f{i} = {v}" for (i, *_), v in zip(c["init"], one)] + [".e = 7"]) + " }"
                if c.get("desig"): b.append(f"St{k} st = {des};" if c["desig"] == 1 else f"St{k} st @noinit; st = {des};")
                else: b.append(f"St{k} st; st.c = 3; st.e = 7; st.x = {ini(c['init'])};")
                X, rest = "st.x", ["rest=307"]
            elif nest == "array":
                b.append(f"{B}[3] arr; arr[1] = {ini(c['init'])};")
                X = "arr[idl(1)]"
            elif nest == "ptr":
                b.append(f"{B} st = {ini(c['init'])}; {B}* q = &st;")
                X = "*q"
            elif nest == "global":
                D.append(f"{B} gx{k};\nconst {B} GK{k} = {ini([[i, v] for i, v, *x in c['init']])};\n{B} gy{k} = {ini([[i, v] for i, v, *x in c['init']])};")
                b.append(f"gx{k} = GK{k}; dump{k}(&gy{k});")
                X = f"gx{k}"
            else:
                b.append(f"{B} x = {ini(c['init'])};")
                X = "x"
            DUMP = f"dump{k}(&{X});" if X != "*q" else f"dump{k}(q);"
            if nest == "struct":
                DUMP += ' pl("rest", (long)st.c * 100 + (long)st.e);'
        m.v = after(c["init"])
        if nest == "global":
            W += dumped(m)

        def dump():
            b.append(DUMP)
            W.extend(dumped(m) + rest)
        dump()
        pre = "q" if X == "*q" else X
        for o in c["ops"]:
            if o[0] in ("set", "setc", "comp", "inc", "shift"):
                f = F[o[1]]
                P = f"{pre}.f{o[1]}"
                t = f["t"]
                if o[0] in ("set", "setc"):
                    b.append(f"{P} = {(rt if o[0] == 'set' else lit)(t, o[2])};")
                    m.put(f, o[2])
                else:
                    w, sg = INTS[t]
                    old = m.get(f)
                    if o[0] == "comp":
                        b.append(f"{P} {o[2]}= {rt(t, o[3])};")
                        v = o[3]
                        r = {"+": old + v, "-": old - v, "*": old * v, "&": old & v, "|": old | v, "^": old ^ v}[o[2]]
                    elif o[0] == "shift":
                        b.append(f"{P} {o[2]}= (uint)idl({o[3]});")
                        r = old << o[3] if o[2] == "<<" else (old & (1 << w) - 1 if not sg else old) >> o[3]
                    else:
                        r = old + (1 if "+" in o[2] else -1)
                        m.put(f, wrap(r, w, sg))
                        new = m.get(f)
                        e = o[2].replace("x", P)
                        if o[2][0] == "x":
                            out = old
                            b.append((f'pw("i", (uint128)({e}));' if w == 128 else f'pl("i", (long)({e}));'))
                            W.append("i=" + (pf.u128(out) if w == 128 else str(wrap(out, 64, 1))))
                        else:
                            b.append(f"{e};")
                        dump()
                        continue
                    m.put(f, wrap(r, w, sg))
            elif o[0] == "lit":
                b.append(f"{X} = {'(' + B + ')' if False else ''}{ini(o[1] if o[2] else [[i, v] for i, v, *x in o[1]])};")
                m.v = after(o[1])
            elif o[0] == "whole":
                y = after(o[2])
                j = len(b)
                b.append(f"{B} y{j} = {ini(o[2])};")
                b.append(f"{X} {o[1]}= y{j};" if o[3] else f"{X} = {X} {o[1]} y{j};")
                m.v = {"&": m.v & y, "|": m.v | y, "^": m.v ^ y}[o[1]]
            elif o[0] == "not":
                b.append(f"{X} = ~{X};")
                m.v = ~m.v & (1 << m.size * 8) - 1
            elif o[0] == "pass":
                if f"fn {B} pass{k}" not in "\n".join(D):
                    D.append(f"fn {B} pass{k}({B} v) @noinline {{ return v; }}")
                b.append(f"{X} = pass{k}({X});")
            elif o[0] == "raw":
                raw = (o[1] & (1 << m.size * 8) - 1).to_bytes(m.size, "little")
                if m.arr:
                    b.append(f"{X} = ({B})({c['back']}){{ {', '.join(map(str, raw))} }};")
                else:
                    b.append(f"{X} = ({B}){rt(c['back'], wrap(int.from_bytes(raw, 'little'), m.size * 8, INTS[c['back']][1]))};")
                m.v = int.from_bytes(raw, "big" if m.swap and not m.arr else "little")
                # Enum members must stay in range.
                for f in F:
                    if f["t"] == "Enu":
                        b.append(f"{pre}.f{F.index(f)} = Enu.E1;")
                        m.put(f, 1)
            elif o[0] == "eq":
                y = after(o[1])
                j = len(b)
                b.append(f'{B} y{j} = {ini(o[1])}; pl("eq", ({X} == y{j}) ? 1 : 0); pl("ne", ({X} != y{j}) ? 1 : 0); y{j} = {X}; pl("eq", ({X} == y{j}) ? 1 : 0);')
                W.extend([f"eq={int(m.v == y)}", f"ne={int(m.v != y)}", "eq=1"])
            if o[0] in ("not", "whole") and any(f["t"] == "Enu" for f in F):
                for i, f in enumerate(F):
                    if f["t"] == "Enu":
                        b.append(f"{pre}.f{i} = Enu.E2;")
                        m.put(f, 2)
            dump()
        # Whole value converted to its backing type.
        if nest != "anon":
            if m.arr:
                b.append(f'{c["back"]} bk = ({c["back"]}){X}; pz("back", &bk, {size});')
            else:
                b.append(f'{c["back"]} bk = ({c["back"]}){X}; pz("back", &bk, {size});')
            W.append("back=" + m.mem().hex())
        # Compile time.
        if nest != "anon":
            n = Model(c)
            for i, v in c["const"]:
                n.put(F[i], v)
            D.append(f"const {B} KK{k} = {ini(c['const'])};")
            b.append(f"{B} kv = KK{k}; dump{k}(&kv);")
            W.extend(dumped(n))
        return "\n".join(D), "\n".join("\t" + x for x in b), W

    def pad(self, c):
        """The bytes between an anonymous bitstruct and the short that follows."""
        size = Model(c).size
        al = 1 if c["back"].startswith("char[") else size
        end = (1 + al - 1) // al * al + size
        return end % 2


class C09(pbt.Check):
    id = "C09"
    rule = "the bitstruct has at least two fields and two operations are done on it; distinct by declaration, history and optimisation level"
    assumptions = ["bit k of a char array backing is bit k % 8 of byte k / 8; @bigendian reverses the bytes of an integer backing and of each member of a char array backing (lib/std/core/bitorder.c3, test_suite/bitstruct)"]
    families = [Bits()]


CHECK = C09()
