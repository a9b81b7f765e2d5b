"""Random C-compatible types, their C and C3 spellings, values, makers and checkers."""

LEAF = {  # C3 name -> (C name, bits, kind)
    "int": ("int", 32, "i"), "char": ("unsigned char", 8, "u"), "double": ("double", 64, "f"), "float": ("float", 32, "f"),
    "long": ("long", 64, "i"), "short": ("short", 16, "i"), "void*": ("void*", 64, "p"), "ichar": ("signed char", 8, "i"), "bool": ("_Bool", 1, "b"),
    "ushort": ("unsigned short", 16, "u"), "uint": ("unsigned", 32, "u"), "ulong": ("unsigned long", 64, "u"), "int128": ("__int128", 128, "i"),
    "uint128": ("unsigned __int128", 128, "u"), "usz": ("unsigned long", 64, "u"), "Dist": ("int", 32, "i"), "Enu": ("unsigned short", 16, "e"),
    "float16": ("_Float16", 16, "f"), "CLongDist": ("long", 64, "i"),
    "FDist": ("float", 32, "f"), "DAlias": ("double", 64, "f"),
}
C3PRE = "typedef Dist = int;\ntypedef CLongDist = long;\ntypedef FDist = float;\nalias DAlias = double;\nenum Enu : ushort { E0, E1, E2, E3, E4, E5, E6 }\n"
COMMON = ["int", "char", "double", "float", "long", "short", "void*"]
FLOATS = [0.0, 1.5, -2.25, 1024.0, 0.125, -3.0, 60000.0, 1e-3]


class TypeGen:
    def __init__(self, s, leaves=None, packed=True, aligned=True, unions=True, size=40):
        self.s, self.packed, self.aligned, self.unions = s, packed, aligned, unions
        self.leaves = leaves or sorted(LEAF)
        self.n = size

    def leaf(self):
        s = self.s
        return s.choice(COMMON) if s.bool(2, 3) else s.choice(self.leaves)

    def type(self, d):
        """A type for a member."""
        s = self.s
        k = s.draw(9)
        if d <= 0 or k < 6 or self.n <= 0:
            self.n -= 1
            return self.leaf()
        if k == 6:
            return ["arr", s.weighted([(3, s.int(1, 4)), (1, s.int(1, 20))]), self.type(d - 1)]
        return self.aggr(d - 1)

    def aggr(self, d):
        s = self.s
        kind = "union" if self.unions and s.bool(1, 4) else "struct"
        packed = self.packed and s.bool(1, 8)
        al = s.choice([2, 4, 8, 16, 32]) if self.aligned and s.bool(1, 10) else 0
        ms = []
        for k in range(s.weighted([(6, s.int(1, 4)), (1, s.int(1, 9))])):
            t = self.type(d)
            inl = isinstance(t, list) and t[0] == "s" and s.bool()
            anon = inl and s.bool()
            mal = s.choice([1, 2, 4, 8, 16]) if self.aligned and kind == "struct" and not inl and s.bool(1, 14) else 0
            if mal and not packed and mal < align(t):
                mal = 0
            ms.append([t, "" if anon else f"m{k}", mal, inl])
        return ["s", kind, packed, al, ms, s.draw(7)]


def leafalign(t):
    b = LEAF[t][1]
    return max(1, b // 8)


def align(t):
    """The alignment (C rules with gcc's packed and aligned attributes)."""
    if isinstance(t, str):
        return leafalign(t)
    if t[0] == "arr":
        return align(t[2])
    a = max([(m[2] or (1 if t[2] else align(m[0]))) for m in t[4]])
    return max(a, t[3])


def rename(t, ctr):
    """Gives every member of an aggregate a name unique within the case (anonymous members share scopes)."""
    if isinstance(t, list):
        if t[0] == "arr":
            rename(t[2], ctr)
        else:
            for m in t[4]:
                if m[1]:
                    ctr[0] += 1
                    m[1] = f"m{ctr[0]}"
                rename(m[0], ctr)
    return t


class Emit:
    """Declares the types of one case in both languages."""

    def __init__(self, prefix):
        self.prefix, self.k = prefix, 0
        self.c, self.t = [], []
        self.names = {}

    def name(self, t):
        return self.names[repr(t)]

    def declare(self, t):
        if isinstance(t, str):
            return
        if t[0] == "arr":
            self.declare(t[2])
            return
        if repr(t) in self.names:
            return
        for m in t[4]:
            self.inner(m[0], m[3])
        n = f"{self.prefix}_{self.k}"
        self.k += 1
        self.names[repr(t)] = n
        self.c.append(f"{self.cbody(t, n)};")
        self.t.append(self.tbody(t, "S" + n))

    def inner(self, t, inl):
        """Declares what an inline aggregate needs."""
        if inl:
            for m in t[4]:
                self.inner(m[0], m[3])
        else:
            self.declare(t)

    def cattr(self, t):
        a = (["packed"] if t[2] else []) + ([f"aligned({t[3]})"] if t[3] else [])
        return f"__attribute__(({', '.join(a)})) " if a else ""

    def cbody(self, t, n):
        ms = []
        for mt, mn, al, inl in t[4]:
            x = f" __attribute__((aligned({al})))" if al else ""
            if inl:
                ms.append(f"{self.cbody(mt, '')} {mn};")
            else:
                ms.append(self.cdecl(mt, mn) + x + ";")
        return f"{t[1]} {self.cattr(t)}{'C' + n if n else ''} {{ {' '.join(ms)} }}"

    def cdecl(self, t, n):
        dims = ""
        while isinstance(t, list) and t[0] == "arr":
            dims += f"[{t[1]}]"
            t = t[2]
        return f"{self.ctype(t)} {n}{dims}"

    def ctype(self, t):
        return LEAF[t][0] if isinstance(t, str) else f"{t[1]} C{self.name(t)}"

    def tattr(self, t):
        return (" @packed" if t[2] else "") + (f" @align({t[3]})" if t[3] else "")

    def tbody(self, t, n, inl=False):
        ms = []
        for mt, mn, al, il in t[4]:
            if il:
                ms.append(self.tbody(mt, mn, True))
            else:
                ms.append(f"{self.ttype(mt)} {mn}{f' @align({al})' if al else ''};")
        return f"{t[1]} {n}{self.tattr(t)} {{ {' '.join(ms)} }}"

    def ttype(self, t):
        if isinstance(t, str):
            return t
        if t[0] == "arr":
            dims = ""
            while isinstance(t, list) and t[0] == "arr":
                dims = f"[{t[1]}]" + dims
                t = t[2]
            return self.ttype(t) + dims
        return "S" + self.name(t)


def leaves(t, path="", all=False):
    """[(path, leaf)] of the members holding the value: every struct member, one member of a union."""
    if isinstance(t, str):
        return [(path, t)]
    if t[0] == "arr":
        ix = range(t[1]) if t[1] <= 4 else [0, 1, t[1] - 1]
        return [x for i in ix for x in leaves(t[2], f"{path}[{i}]", all)]
    ms = t[4]
    if t[1] == "union" and not all:
        ms = [ms[t[5] % len(ms)]]
    return [x for m in ms for x in leaves(m[0], path + (f".{m[1]}" if m[1] else ""), all)]


def gval(s, leaf):
    _, b, k = LEAF[leaf]
    if k == "f":
        v = s.choice(FLOATS)
        return v if b > 16 or abs(v) < 60000 and v != 1e-3 else 1.5
    if k == "b":
        return s.draw(1)
    if k == "e":
        return s.draw(6)
    if k == "p":
        return s.bits(48)
    return s.inum(b, k == "i")


def cval(v, leaf):
    c, b, k = LEAF[leaf]
    if k == "f":
        return f"({c}){v!r}"
    if k == "p":
        return f"(void*){v}UL"
    m = v & ((1 << max(b, 8)) - 1)
    if b == 128:
        return f"({c})((unsigned __int128){m >> 64}UL << 64 | {m & (1 << 64) - 1}UL)"
    return f"({c}){m}UL"


def tval(v, leaf):
    c, b, k = LEAF[leaf]
    if k == "f":
        return f"(({leaf}){v!r})"
    if k == "p":
        return f"(void*)(ulong){v}UL"
    if k == "e":
        return f"Enu.E{v}"
    if k == "b":
        return "true" if v else "false"
    m = v & ((1 << b) - 1)
    if b == 128:
        return f"(({leaf})(((uint128)0x{m >> 64:x}UL << 64) | (uint128)0x{m & (1 << 64) - 1:x}UL))"
    if b == 64:
        return f"(({leaf})0x{m:x}UL)"
    return f"(({leaf})({v}))"


def csame(x, v, leaf):
    return f"{x} == {cval(v, leaf)}"


def tsame(x, v, leaf):
    return f"{x} == {tval(v, leaf)}"


def tinit(t, path, vals):
    """A C3 initializer for the value (dict path -> value); union: the active member."""
    if isinstance(t, str):
        return tval(vals[path], t)
    if t[0] == "arr":
        ix = range(t[1]) if t[1] <= 4 else [0, 1, t[1] - 1]
        return "{ " + ", ".join(f"[{i}] = {tinit(t[2], f'{path}[{i}]', vals)}" for i in ix) + " }"
    if any(not m[1] for m in t[4]):
        # Anonymous members: designate the leaves.
        out = []
        for p, l in leaves(t, path):
            out.append((p[len(path):], tval(vals[p], l)))
        return "{ " + ", ".join(f"{p} = {v}" for p, v in out) + " }"
    ms = [t[4][t[5] % len(t[4])]] if t[1] == "union" else t[4]
    return "{ " + ", ".join(f".{m[1]} = {tinit(m[0], f'{path}.{m[1]}', vals)}" for m in ms) + " }"


def cshare(t):
    """Whether gcc can hand out the type by value (always)."""
    return True


def size_weight(t):
    return len(leaves(t, all=True))
