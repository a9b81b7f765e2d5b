"""C11: vector operations against the scalar operation on each lane."""
import struct, math
from vf import pbt, pf

INTS = {"ichar": (8, 1), "char": (8, 0), "short": (16, 1), "ushort": (16, 0), "int": (32, 1), "uint": (32, 0), "long": (64, 1), "ulong": (64, 0), "int128": (128, 1), "uint128": (128, 0)}
FLOATS = {"float": "f", "double": "d"}
SIZES = {**{t: b // 8 for t, (b, _) in INTS.items()}, "float": 4, "double": 8, "bool": 1}
SW = "xyzw"


def wrap(v, t):
    if t == "bool": return int(bool(v))
    w, s = INTS[t]
    v &= (1 << w) - 1
    return v - (1 << w) if s and v >> w - 1 else v


def fround(v, t):
    if t == "double": return v
    try: return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError: return math.inf if v > 0 else -math.inf


def lit(t, v):
    if t == "bool": return "true" if v else "false"
    if t in FLOATS:
        return f"(({t})bitcast(0x{struct.unpack('Q', struct.pack('d', v))[0]:x}UL, double))"
    m = v & (1 << 128) - 1
    if SIZES[t] == 16: return f"(({t})(((uint128)0x{m >> 64:x}UL << 64) | (uint128)0x{m & (1 << 64) - 1:x}UL))"
    return f"(({t})0x{v & (1 << 64) - 1:x}UL)"


def rt(t, v):
    if t == "bool": return f"(idl({v}) != 0)"
    if t in FLOATS: return f"(({t})idd(bitcast(0x{struct.unpack('Q', struct.pack('d', v))[0]:x}UL, double)))"
    m = v & (1 << 128) - 1
    if SIZES[t] == 16: return f"(({t})idw(((uint128)0x{m >> 64:x}UL << 64) | (uint128)0x{m & (1 << 64) - 1:x}UL))"
    return f"(({t})(ulong)idl((long)0x{v & (1 << 64) - 1:x}UL))"


def raw(t, vs):
    if t in FLOATS:
        return b"".join(struct.pack(FLOATS[t], v) for v in vs).hex()
    n = SIZES[t]
    return b"".join((v & (1 << n * 8) - 1).to_bytes(n, "little") for v in vs).hex()


class Undef(Exception):
    pass


def scalar(op, t, a, b):
    """The scalar operation on values of type t, converted back to t."""
    if t in FLOATS:
        if op == "/":
            if b == 0: raise Undef
            r = a / b
        else:
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
        return fround(r, t)
    if op in "/%":
        if b == 0 or t != "bool" and b == -1 and a == -(1 << INTS[t][0] - 1): raise Undef
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return wrap(q if op == "/" else a - q * b, t)
    if op in ("<<", ">>"):
        if not 0 <= b < INTS[t][0]: raise Undef
        return wrap(a << b if op == "<<" else a >> b, t)
    return wrap({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op](), t)


def conv(v, t, u):
    if t == "bool":  # A true lane is all ones as an integer.
        if u == "bool": return v
        return wrap(-v, u) if u in INTS else None
    if u == "bool": return int(v != 0)
    if t in FLOATS and u in FLOATS: return fround(v, u)
    if u in FLOATS:
        if SIZES[t] == 16 or u == "float" and v and abs(v) >> max(0, abs(v).bit_length() - 24) << max(0, abs(v).bit_length() - 24) != abs(v): raise Undef
        return fround(float(v), u)
    if t in FLOATS:
        r = int(v)
        w, s = INTS[u]
        if not (-(1 << w - 1) if s else 0) <= r <= (1 << w - s) - 1 or v < 0 and not s: raise Undef
        return r
    return wrap(v, u)


CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}
NV = 3


class Lanes(pf.PF):
    name = "lanes"
    quick, thorough = 1600, 80000
    std = False
    pre = pf.PRE + "import std::core::builtin;\n"
    std = True

    def val(self, s, t):
        if t == "bool": return s.draw(1)
        if t in FLOATS:
            k = s.draw(3)
            v = s.int(-9, 9) * 1.0 if k == 0 else s.int(-4000, 4000) / 16 if k == 1 else s.int(-99, 99) * 2.0 ** s.int(-20, 20) if k == 2 else s.int(-1000000, 1000000) / 7
            return fround(v, t)
        return s.inum(*INTS[t])

    def gen(self, s):
        t = s.choice(sorted(INTS) * 2 + ["float", "double", "float", "double", "bool", "bool"])
        n = s.choice([1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 7, 8, 8, 9, 12, 16, 17, 32])
        if SIZES[t] == 16: n = min(n, 8)
        V = lambda: s.draw(NV - 1)
        vals = [[self.val(s, t) for _ in range(n)] for _ in range(NV)]
        ops = []
        isint = t in INTS
        ar = ["+", "-", "*", "/", "%", "&", "|", "^"] if isint else ["+", "-", "*", "/"] if t in FLOATS else ["&", "|", "^"]
        for _ in range(s.int(1, 9)):
            k = s.choice(["bin", "bin", "scal", "comp", "compscal", "shift", "un", "cmp", "sel", "eq", "set", "setop", "inc", "vinc", "swz", "swzset", "swzop", "red", "minmax", "conv", "arr", "chain", "pass",
                          "lit", "each", "eachref", "lanes", "slice", "kneg", "swap"])
            if k == "bin": o = [k, V(), s.choice(ar), V(), V()]
            elif k in ("scal", "compscal") and t == "bool": continue
            elif k == "scal": o = [k, V(), s.choice(ar), V(), self.val(s, t), s.bool()]
            elif k == "comp": o = [k, V(), s.choice(ar), V()]
            elif k == "compscal": o = [k, V(), s.choice(ar), self.val(s, t)]
            elif k == "shift" and isint: o = [k, V(), s.choice(["<<", ">>"]), V(), [s.int(0, INTS[t][0] - 1) for _ in range(n)], s.draw(2)]
            elif k == "un": o = [k, V(), s.choice(["-", "~"] if isint else ["-"] if t in FLOATS else ["!", "~"]), V()]
            elif k == "cmp" and t != "bool": o = [k, s.choice(sorted(CMP)), V(), V()]
            elif k == "sel" and t != "bool": o = [k, V(), s.choice(sorted(CMP)), V(), V(), V(), V()]
            elif k == "eq": o = [k, V(), V()]
            elif k == "set": o = [k, V(), s.draw(n - 1), self.val(s, t), s.draw(3)]
            elif k == "setop": o = [k, V(), s.draw(n - 1), s.choice(ar), self.val(s, t), s.draw(2)]
            elif k == "inc" and t != "bool": o = [k, V(), s.draw(n - 1), s.choice(["++x", "x++", "--x", "x--"])]
            elif k == "vinc" and t != "bool": o = [k, V(), s.choice(["++x", "x++", "--x", "x--"]), V()]
            elif k == "swz": o = [k, V(), [s.draw(min(n, 4) - 1) for _ in range(s.int(2, 4))], s.bool(1, 4)]
            elif k in ("swzset", "swzop"):
                m = min(n, 4)
                ix = list(range(m))
                for i in range(m - 1, 0, -1):
                    j = s.draw(i)
                    ix[i], ix[j] = ix[j], ix[i]
                if m < 2: continue
                ix = ix[:s.int(2, m)]
                o = [k, V(), ix, [self.val(s, t) for _ in ix]] + ([s.choice(ar)] if k == "swzop" else [])
            elif k == "red" and t != "bool": o = [k, V(), s.choice(["add", "mul", "and", "or", "xor", "max", "min"] if isint else ["fadd", "fmul", "max", "min"])]
            elif k == "minmax" and t != "bool": o = [k, V(), s.choice(["max", "min", "abs"]), V(), V()]
            elif k == "conv": o = [k, V(), s.choice(sorted(SIZES))]
            elif k == "arr": o = [k, V(), V(), s.bool()]
            elif k == "chain": o = [k, V(), s.draw(n - 1), s.draw(n - 1), self.val(s, t)]
            elif k == "pass": o = [k, V(), V()]
            elif k == "lit": o = [k, V(), s.choice(["pos", "range", "one", "empty"]), s.draw(n - 1), s.draw(n - 1), self.val(s, t), self.val(s, t)]
            elif k in ("each", "eachref"): o = [k, V()]
            elif k == "lanes": o = [k, V(), V(), s.draw(1)]
            elif k == "slice": o = [k, V(), s.draw(n - 1), s.draw(n - 1)]
            elif k == "kneg": o = [k, [self.val(s, t) for _ in range(n)]]
            elif k == "swap": o = [k, V(), V()]
            else: continue
            ops.append(o)
        return {"t": t, "n": n, "vals": vals, "ops": ops, "home": s.choice(["local", "local", "global", "struct", "array", "param", "ptr"]), "level": s.draw(len(self.levels) - 1)}

    def valid(self, c):
        return 1 <= c["n"] and all(len(v) == c["n"] for v in c["vals"]) and len(c["vals"]) == NV

    def labels(self, c):
        return [c["t"], f"{c['n']} lanes", c["home"]] + sorted({o[0] for o in c["ops"]})

    def nontrivial(self, c):
        return c["n"] > 1 and len(c["ops"]) >= 2

    def emit(self, k, c):
        t, n = c["t"], c["n"]
        T, home = f"{t}[<{n}>]", c["home"]
        D, b, W = [], [], []
        cur = [list(v) for v in c["vals"]]
        ini = lambda vs, f=rt: "{ " + ", ".join(f(t, v) for v in vs) + " }"
        if home == "global":
            for i in range(NV): D.append(f"{T} gv{k}_{i} = {ini(cur[i], lit) if t not in FLOATS else '{}'};")
            N = [f"gv{k}_{i}" for i in range(NV)]
            if t in FLOATS: b += [f"{N[i]} = {ini(cur[i])};" for i in range(NV)]
        elif home == "struct":
            D.append(f"struct Hs{k} {{ char pad; {T} v0; short mid; {T} v1; {T} v2; char end; }}")
            b.append(f"Hs{k} h; h.end = 5; h.mid = 6;" + "".join(f" h.v{i} = {ini(cur[i])};" for i in range(NV)))
            N = [f"h.v{i}" for i in range(NV)]
        elif home == "array":
            b.append(f"{T}[{NV}] h = {{ {', '.join(ini(v) for v in cur)} }};")
            N = [f"h[idl({i})]" for i in range(NV)]
        elif home == "ptr":
            b.append(" ".join(f"{T} w{i} = {ini(cur[i])}; {T}* p{i} = &w{i};" for i in range(NV)))
            N = [f"(*p{i})" for i in range(NV)]
        else:
            b.append(" ".join(f"{T} v{i} = {ini(cur[i])};" for i in range(NV)))
            N = [f"v{i}" for i in range(NV)]
        ctr = [0]

        def show(name, u, vals):
            if u == "bool":
                b.append(" ".join(f'pl("b", {name}[{i}] ? 1 : 0);' for i in range(len(vals))))
                W.extend(f"b={int(v)}" for v in vals)
            else:
                b.append(f'pz("{u}", &{name}, {SIZES[u] * len(vals)});')
                W.append(f"{u}=" + raw(u, vals))

        def sl(v, label="s"):
            """Print a scalar expression of type t whose value is v."""
            def f(text):
                if t in FLOATS:
                    b.append(f'pd("{label}", (double)({text}));')
                    W.append(f"{label}=" + float.hex(v) if False else f"{label}=" + c_hex(v))
                elif t == "bool":
                    b.append(f'pl("{label}", ({text}) ? 1 : 0);')
                    W.append(f"{label}={int(v)}")
                else:
                    b.append(f'pw("{label}", (uint128)({text}));')
                    W.append(f"{label}=" + pf.u128(v))
            return f
        for o in c["ops"]:
            op = o[0]
            j = ctr[0] = ctr[0] + 1
            mark = len(b), len(W), len(D)
            try:
                if op == "bin":
                    r = [scalar(o[2], t, x, y) for x, y in zip(cur[o[3]], cur[o[4]])]
                    b.append(f"{N[o[1]]} = {N[o[3]]} {o[2]} {N[o[4]]};")
                elif op == "scal":
                    r = [scalar(o[2], t, o[4], x) if o[5] else scalar(o[2], t, x, o[4]) for x in cur[o[3]]]
                    b.append(f"{N[o[1]]} = {rt(t, o[4]) + ' ' + o[2] + ' ' + N[o[3]] if o[5] else N[o[3]] + ' ' + o[2] + ' ' + rt(t, o[4])};")
                elif op == "comp":
                    r = [scalar(o[2], t, x, y) for x, y in zip(cur[o[1]], cur[o[3]])]
                    b.append(f"{N[o[1]]} {o[2]}= {N[o[3]]};")
                elif op == "compscal":
                    r = [scalar(o[2], t, x, o[3]) for x in cur[o[1]]]
                    b.append(f"{N[o[1]]} {o[2]}= {rt(t, o[3])};")
                elif op == "shift":
                    am = o[4]
                    if o[5] == 0:
                        r = [scalar(o[2], t, x, y) for x, y in zip(cur[o[3]], am)]
                        b.append(f"{T} sh{j} = {ini(am)}; {N[o[1]]} = {N[o[3]]} {o[2]} sh{j};")
                    elif o[5] == 1:
                        r = [scalar(o[2], t, x, am[0]) for x in cur[o[1]]]
                        b.append(f"{N[o[1]]} {o[2]}= {am[0]};")
                    else:
                        r = [scalar(o[2], t, x, am[0]) for x in cur[o[3]]]
                        b.append(f"{N[o[1]]} = {N[o[3]]} {o[2]} {rt(t, am[0])};")
                elif op == "un":
                    r = [(-x if o[2] == "-" else 1 - x) if t in FLOATS or t == "bool" else wrap(-x if o[2] == "-" else ~x, t) for x in cur[o[3]]]
                    b.append(f"{N[o[1]]} = {o[2]}{N[o[3]]};")
                elif op == "cmp":
                    b.append(f"bool[<{n}>] m{j} = $$veccomp{o[1]}({N[o[2]]}, {N[o[3]]});")
                    show(f"m{j}", "bool", [CMP[o[1]](x, y) for x, y in zip(cur[o[2]], cur[o[3]])])
                    continue
                elif op == "sel":
                    r = [p if CMP[o[2]](x, y) else q for x, y, p, q in zip(*[cur[o[i]] for i in (3, 4, 5, 6)])]
                    b.append(f"bool[<{n}>] m{j} = $$veccomp{o[2]}({N[o[3]]}, {N[o[4]]}); {N[o[1]]} = $$select(m{j}, {N[o[5]]}, {N[o[6]]});")
                elif op == "eq":
                    e = cur[o[1]] == cur[o[2]]
                    b.append(f'pl("eq", {N[o[1]]} == {N[o[2]]} ? 1 : 0); pl("ne", {N[o[1]]} != {N[o[2]]} ? 1 : 0);')
                    W += [f"eq={int(e)}", f"ne={int(not e)}"]
                    continue
                elif op == "set":
                    r = list(cur[o[1]])
                    r[o[2]] = o[3]
                    ix = [f"{o[2]}", f"idl({o[2]})", f"^{n - o[2]}", f"^idl({n - o[2]})"][o[4]]
                    b.append(f"{N[o[1]]}[{ix}] = {rt(t, o[3])};")
                elif op == "setop":
                    r = list(cur[o[1]])
                    r[o[2]] = scalar(o[3], t, r[o[2]], o[4])
                    ix = [f"{o[2]}", f"idl({o[2]})", f"^{n - o[2]}"][o[5]]
                    b.append(f"{N[o[1]]}[{ix}] {o[3]}= {rt(t, o[4])};")
                elif op == "inc":
                    r = list(cur[o[1]])
                    d = 1 if "+" in o[3] else -1
                    old = r[o[2]]
                    r[o[2]] = fround(old + d, t) if t in FLOATS else wrap(old + d, t)
                    sl(old if o[3][0] == "x" else r[o[2]])(o[3].replace("x", f"{N[o[1]]}[{o[2]}]"))
                elif op == "vinc":
                    d = 1 if "+" in o[2] else -1
                    old = cur[o[1]]
                    r = [fround(x + d, t) if t in FLOATS else wrap(x + d, t) for x in old]
                    b.append(f"{T} q{j} = {o[2].replace('x', N[o[1]])};")
                    show(f"q{j}", t, old if o[2][0] == "x" else r)
                elif op == "swz":
                    sw = "".join((SW if not o[3] else "rgba")[i] for i in o[2])
                    b.append(f"{t}[<{len(o[2])}>] q{j} = {N[o[1]]}.{sw};")
                    show(f"q{j}", t, [cur[o[1]][i] for i in o[2]])
                    continue
                elif op in ("swzset", "swzop"):
                    r = list(cur[o[1]])
                    for i, v in zip(o[2], o[3]): r[i] = v if op == "swzset" else scalar(o[4], t, r[i], v)
                    b.append(f"{N[o[1]]}.{''.join(SW[i] for i in o[2])} {o[4] if op == 'swzop' else ''}= {{ {', '.join(rt(t, v) for v in o[3])} }};")
                elif op == "red":
                    xs = cur[o[1]]
                    if o[2] in ("fadd", "fmul"):
                        v = 1.0
                        for x in xs: v = fround(v + x if o[2] == "fadd" else v * x, t)
                        if math.isinf(v) or math.isnan(v): raise Undef
                        sl(v)(f"$$reduce_{o[2]}({N[o[1]]}, ({t})1)")
                    else:
                        v = xs[0]
                        for x in xs[1:]:
                            v = {"add": lambda: v + x, "mul": lambda: v * x, "and": lambda: v & x, "or": lambda: v | x, "xor": lambda: v ^ x, "max": lambda: max(v, x), "min": lambda: min(v, x)}[o[2]]()
                        if t in FLOATS and v == 0: raise Undef
                        sl(v if t in FLOATS else wrap(v, t))(f"$$reduce_{o[2]}({N[o[1]]})")
                    continue
                elif op == "minmax":
                    if o[2] == "abs":
                        if t in INTS and (not INTS[t][1] or min(cur[o[3]]) == -(1 << INTS[t][0] - 1)): raise Undef
                        r = [abs(x) for x in cur[o[3]]]
                        b.append(f"{N[o[1]]} = $$abs({N[o[3]]});")
                    else:
                        r = [max(x, y) if o[2] == "max" else min(x, y) for x, y in zip(cur[o[3]], cur[o[4]])]
                        if t in FLOATS and any(x == 0 == y for x, y in zip(cur[o[3]], cur[o[4]])): raise Undef
                        b.append(f"{N[o[1]]} = $${o[2]}({N[o[3]]}, {N[o[4]]});")
                elif op == "conv":
                    u = o[2]
                    q = [conv(x, t, u) for x in cur[o[1]]]
                    if None in q: raise Undef
                    b.append(f"{u}[<{n}>] q{j} = ({u}[<{n}>]){N[o[1]]};")
                    show(f"q{j}", u, q)
                    continue
                elif op == "arr":
                    r = list(cur[o[2]])
                    b.append(f"{t}[{n}] q{j} = {f'({t}[{n}])' if o[3] else ''}{N[o[2]]};" + ("" if t == "bool" else f' pz("arr", &q{j}, {n * SIZES[t]});') + f" {N[o[1]]} = {f'({T})' if o[3] else ''}q{j};")
                    if t != "bool": W.append("arr=" + raw(t, r))
                elif op == "chain":
                    r = list(cur[o[1]])
                    r[o[2]] = r[o[3]] = o[4]
                    b.append(f"{N[o[1]]}[{o[2]}] = {N[o[1]]}[{o[3]}] = {rt(t, o[4])};")
                elif op == "pass":
                    if not any("pass" in d for d in D): D.append(f"fn {T} pass{k}(int a, {T} v, char z) @noinline {{ return a == z ? v : {{}}; }}")
                    r = list(cur[o[2]])
                    b.append(f"{N[o[1]]} = pass{k}(3, {N[o[2]]}, 3);")
                elif op == "lit":
                    z = 0.0 if t in FLOATS else 0
                    lo, hi = sorted(o[3:5])
                    if o[2] == "pos":
                        r = [o[5] if i % 2 else o[6] for i in range(n)]
                        e = "{ " + ", ".join((rt if i % 3 else lit)(t, v) if t not in FLOATS else rt(t, v) for i, v in enumerate(r)) + " }"
                    elif o[2] == "range":
                        r = [o[5] if lo <= i <= hi else z for i in range(n)]
                        e = f"{{ [{lo}..{hi}] = {rt(t, o[5])} }}"
                    elif o[2] == "one":
                        r = [o[5]] * n
                        e = f"({T}){rt(t, o[5])}"
                    else:
                        r, e = [z] * n, "{}"
                    b.append(f"{N[o[1]]} = {e};")
                elif op == "each":
                    for v in cur[o[1]]: W.append(f"x={c_hex(v) if t in FLOATS else pf.u128(v) if t != 'bool' else int(v)}")
                    b.append(f"foreach (x : {N[o[1]]}) {'pd(\"x\", (double)x)' if t in FLOATS else 'pw(\"x\", (uint128)x)' if t != 'bool' else 'pl(\"x\", x ? 1 : 0)'};")
                    continue
                elif op == "eachref":
                    if t == "bool": raise Undef
                    r = [scalar("+", t, x, 1 if t in INTS else 1.0) for x in cur[o[1]]]
                    b.append(f"for (usz i = 0; i < {n}; i++) {N[o[1]]}[i] += 1;")
                elif op == "lanes":
                    r = [scalar("&" if t == "bool" else "+", t, x, y) for x, y in zip(cur[o[1]], cur[o[2]])]
                    q = "&" if t == "bool" else "+"
                    b.append(f"for (int i = 0; i < {n}; i++) {N[o[1]]}[i] " + (f"{q}= {N[o[2]]}[i];" if o[3] else f"= {'(' + t + ')' if t in INTS else ''}({N[o[1]]}[i] {q} {N[o[2]]}[i]);"))
                elif op == "slice":
                    if t == "bool": raise Undef
                    lo, hi = sorted(o[2:4])
                    b.append(f'{{ {t}[] ss = {N[o[1]]}[{lo}..{hi}]; pz("sl", ss.ptr, (usz)ss.len * {SIZES[t]}); }}')
                    W.append("sl=" + raw(t, cur[o[1]][lo:hi + 1]))
                    continue
                elif op == "kneg":
                    if t == "bool" or t in FLOATS: raise Undef
                    D.append(f"const {T} KA{k}_{j} = {ini(o[1], lit)};\nconst {T} KB{k}_{j} = -KA{k}_{j};\nconst {T} KC{k}_{j} = ~KA{k}_{j};")
                    b.append(f"{T} ka{j} = KB{k}_{j}; {T} kb{j} = KC{k}_{j};")
                    show(f"ka{j}", t, [wrap(-v, t) for v in o[1]])
                    show(f"kb{j}", t, [wrap(~v, t) for v in o[1]])
                    sl(o[1][-1])(f"KA{k}_{j}[{n - 1}]")
                    continue
                elif op == "swap":
                    r = list(reversed(cur[o[2]][:2])) + cur[o[2]][2:] if n >= 2 else list(cur[o[2]])
                    if n < 2: raise Undef
                    b.append(f"{N[o[1]]} = {N[o[2]]}; {N[o[1]]}.xy = {N[o[1]]}.yx;")
                if t in FLOATS and any(math.isinf(x) or math.isnan(x) for x in r): raise Undef
            except Undef:
                # Leave the operation out.
                del b[mark[0]:], W[mark[1]:], D[mark[2]:]
                continue
            cur[o[1]] = r
            show(N[o[1]] if home != "ptr" else f"w{o[1]}", t, r)
        for i in range(NV):
            show(N[i] if home != "ptr" else f"w{i}", t, cur[i])
        if home == "struct":
            b.append('pl("rest", (long)h.mid * 100 + (long)h.end);')
            W.append("rest=605")
        text = "\n".join("\t" + x for x in b)
        if home == "param":
            D.append(f"fn void body{k}({T} v0, {T} v1, {T} v2) @noinline {{\n" + "\n".join("\t" + x for x in b[1:]) + "\n}")
            text = "\t" + b[0] + f"\n\tbody{k}(v0, v1, v2);"
        return "\n".join(D), text, W


def c_hex(v):
    """%a as glibc prints it."""
    if v == 0: return "-0x0p+0" if math.copysign(1, v) < 0 else "0x0p+0"
    h = float.hex(abs(v))
    m, e = h[2:].split("p")
    a, f = m.split(".") if "." in m else (m, "")
    f = f.rstrip("0")
    return ("-" if v < 0 else "") + "0x" + a + ("." + f if f else "") + "p" + e


class C11(pbt.Check):
    id = "C11"
    rule = "at least two lanes and two operations; distinct by element type, lane count, values, operations, storage and optimisation level"
    assumptions = ["a true lane converts to an integer with all bits set (test_suite/vector/vector_from_i1.c3t)", "float lanes that would become infinite or NaN, and the sign of zero in min and max, are left out"]
    families = [Lanes()]


CHECK = C11()
