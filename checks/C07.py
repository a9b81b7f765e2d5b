"""C07: cross-compiled signatures are passed as the target's C ABI (clang's) passes them."""
import os, re, tempfile, shutil
from vf import pbt, c3, build

# C3 name, C name, size
LEAF = {"char": "unsigned char", "ichar": "signed char", "short": "short", "ushort": "unsigned short", "int": "int", "uint": "unsigned", "long": "long long", "ulong": "unsigned long long",
        "float": "float", "double": "double", "bool": "_Bool", "void*": "void*", "int128": "__int128"}
# c3c flags, clang flags, int128 exists
TARGETS = {
    "linux-aarch64": (["--target", "linux-aarch64"], ["--target=aarch64-linux-gnu"], 1),
    "macos-aarch64": (["--target", "macos-aarch64"], ["--target=arm64-apple-macosx11"], 1),
    "linux-riscv64": (["--target", "linux-riscv64"], ["--target=riscv64-linux-gnu", "-march=rv64imac", "-mabi=lp64"], 1),
    "linux-riscv64-d": (["--target", "linux-riscv64", "--riscvfloat=double"], ["--target=riscv64-linux-gnu", "-march=rv64imafdc", "-mabi=lp64d"], 1),
    "linux-riscv32": (["--target", "linux-riscv32"], ["--target=riscv32-linux-gnu", "-march=rv32imac", "-mabi=ilp32"], 0),
    "windows-x64": (["--target", "windows-x64"], ["--target=x86_64-windows-msvc"], 0),
    "mingw-x64": (["--target", "mingw-x64"], ["--target=x86_64-windows-gnu"], 0),
    "linux-x86": (["--target", "linux-x86"], ["--target=i386-linux-gnu", "-march=i686", "-msse2"], 0),
    "wasm32": (["--target", "wasm32"], ["--target=wasm32-unknown-unknown"], 0),
    "linux-x64": (["--target", "linux-x64"], ["--target=x86_64-linux-gnu"], 1),
    "macos-x64": (["--target", "macos-x64"], ["--target=x86_64-apple-macosx11"], 1),
}
SIZES = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "float": 4, "double": 8}

FP = ("float", "double", "<2 x float>")


class Ty:
    """LLVM type parser: nested tuples with names resolved."""
    def __init__(self, ir): self.defs = dict(re.findall(r'^%("[^"]+"|[\w.$]+) = type (.*)$', ir, re.M))

    def parse(self, t):
        self.t, self.i = t, 0
        return self.one()

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in " ,": self.i += 1

    def one(self):
        self.ws()
        t, i = self.t, self.i
        if t[i] == "%":
            m = re.compile(r'%("[^"]+"|[\w.$]+)').match(t, i)
            e = m.end()
            r = Ty.__new__(Ty); r.defs = self.defs
            v = r.parse(self.defs[m.group(1)])
            self.i = e
            return v
        if t[i] in "<{[":
            if t[i] == "<" and t[i + 1] != "{":
                e = t.index(">", i) + 1
                self.i = e
                return t[i:e]
            pk = t[i] == "<"
            if pk: i += 1
            if t[i] == "[":
                m = re.compile(r"\[(\d+) x ").match(t, i)
                self.i = m.end()
                v = self.one(); self.ws()
                assert t[self.i] == "]"
                self.i += 1
                return ("a", int(m.group(1)), v)
            self.i = i + 1
            r = []
            while True:
                self.ws()
                if t[self.i] == "}": break
                r.append(self.one())
            self.i += 1 + pk
            return ("s",) + tuple(r)
        m = re.compile(r"[\w]+").match(t, i)
        self.i = m.end()
        return "i8" if m.group() == "i1" else m.group()


def simplify(t):
    """A struct or array around a single element is passed as that element."""
    while isinstance(t, tuple):
        if t[0] == "s" and len(t) == 2: t = t[1]
        elif t[0] == "a" and t[1] == 1: t = t[2]
        else: break
    return t


def riscv_stack(ret, ps, target):
    """Drops the extensions of integers passed on the stack on RISC-V: older compilers, and the golden tests, leave them out."""
    if "riscv" not in target: return ps
    x, left, fl = (4 if "32" in target else 8), 8, 8 if target.endswith("-d") else 0
    r = []
    for t, at in ps:
        n = 1
        ls = flat(t)
        fs = sum(l in ("float", "double") for l in ls)
        if fs and fs <= fl and len(ls) <= 2 and not (isinstance(t, tuple) and t[0] == "a"): fl -= fs; n = len(ls) - fs
        elif isinstance(t, tuple): n = len(ls)
        elif SIZES.get(t, x) > x: n = 2
        if n > left: at = tuple(a for a in at if a not in ("signext", "zeroext")); left = 0
        else: left -= n
        r.append((t, at))
    return r


def flat(t):
    if isinstance(t, str): return [t]
    if t[0] == "a": return flat(t[2]) * t[1]
    return [l for x in t[1:] for l in flat(x)]


def split(args):
    r, d, at = [], 0, 0
    for i, ch in enumerate(args):
        if ch in "([{<": d += 1
        elif ch in ")]}>": d -= 1
        elif ch == "," and not d: r.append(args[at:i]); at = i + 1
    if args[at:].strip(): r.append(args[at:])
    return [x.strip() for x in r]


def sig(ir, target):
    """name -> (result, [parameters]) of each function definition or declaration in the IR."""
    ty, out = Ty(ir), {}
    for m in re.finditer(r'^define (.*?)@(f\d+_?\d*)\((.*)\)[^()\n]*(?:#\d+|!dbg|\{)', ir, re.M):
        pre, name, args = m.groups()
        words = pre.split()
        ext = [w for w in words if w in ("zeroext", "signext", "inreg")]
        while words and re.fullmatch(r"dso_local|hidden|dllexport|noundef|zeroext|signext|inreg|protected|noalias|nonnull|x86_\w+|align|\d+", words[0]): words.pop(0)
        ret = simplify(ty.parse(" ".join(words)))
        if ret == "i1": ret = "i8"
        ps = []
        for a in split(args):
            t = simplify(ty.parse(a))
            at = [w for w in ("zeroext", "signext", "inreg") if re.search(rf"\b{w}\b", a)]
            al = re.search(r"\balign (\d+)", a)
            bv = re.search(r"\b(byval|sret)\((%\"[^\"]+\"|%[\w.$]+)\)", a)
            if bv:
                at.append(bv.group(1))
                if al: at.append(int(al.group(1)))
                if target == "linux-x86" and bv.group(1) == "byval":
                    ps.append(("stack", words86(ty.parse(bv.group(2))), ()))
                    continue
            if target == "linux-x86" and "inreg" not in at and "sret" not in at:
                for leaf in leaves86(t): ps.append(("stack", leaf, tuple(x for x in at if isinstance(x, str))))
                continue
            ps.append(("i8" if t == "i1" else t, tuple(at)))
        if target == "linux-x86": ps = merge86(ps)
        out[name] = (ret, tuple(ext), riscv_stack(ret, ps, target))
    return out


def size86(t, al=False):
    if isinstance(t, str): s = SIZES.get(t, 4); return (min(s, 4) if al else s)
    if t[0] == "a": return size86(t[2], al) if al else t[1] * size86(t[2])
    if al: return max(size86(x, True) for x in t[1:])
    n = 0
    for x in t[1:]:
        a = size86(x, True); n = (n + a - 1) // a * a + size86(x)
    a = max(size86(x, True) for x in t[1:])
    return (n + a - 1) // a * a


def words86(t): return (size86(t) + 3) // 4


def leaves86(t):
    if isinstance(t, str): return [words86(t)]
    if t[0] == "a": return [w for _ in range(t[1]) for w in leaves86(t[2])]
    return [w for x in t[1:] for w in leaves86(x)]


def merge86(ps):
    """Stack words in a row, with the extension of each small integer."""
    r = []
    for p in ps:
        if p[0] == "stack":
            for w in range(p[1]): r.append(("w",) + p[2])
        else: r.append(p)
    return r


class Sig(pbt.Family):
    name = "signatures"
    quick, thorough = 30000, 800000
    batch = 100

    def gen(self, s):
        target = s.choice(sorted(TARGETS))
        i128 = TARGETS[target][2] and s.bool(1, 3)
        lv = [x for x in LEAF if i128 or x != "int128"]
        bias = s.choice([lv, ["float"], ["double"], ["char", "short", "int"], ["float", "double", "int"]])
        def ty(d):
            k = s.draw(9)
            if d and k < 5:
                kind = "union" if s.bool(1, 6) else "struct"
                return [kind, [ty(d - 1) for _ in range(s.int(1, 4))]]
            if d and d < 3 and k == 5: return ["arr", ty(d - 1), s.int(1, 4)]
            return s.choice(bias)
        c = {"target": target, "ret": ty(3) if s.bool(3, 4) else "void", "params": [ty(3) for _ in range(s.int(1, 9))]}
        if target == "linux-x86" and not isinstance(c["ret"], str): c["ret"] = "int"   # known finding
        return c

    def valid(self, c): return bool(c["params"]) and all(self.ok(t, i) for i, t in enumerate(c["params"] + [c["ret"]]))

    def ok(self, t, top=None):
        if isinstance(t, str): return t in LEAF or t == "void"
        if t[0] == "arr": return top is None and self.ok(t[1])
        return bool(t[1]) and all(self.ok(x) and x != "void" for x in t[1])

    def nontrivial(self, c): return any(not isinstance(t, str) for t in c["params"] + [c["ret"]])
    def labels(self, c): yield c["target"]

    def emit(self, k, c):
        cd, td, n = [], [], [0]
        def decl(t):
            """-> (C3 spelling, C spelling with a hole)"""
            if isinstance(t, str): return t, ("void" if t == "void" else LEAF[t]) + " {}"
            if t[0] == "arr":
                a, b = decl(t[1])
                return f"{a}[{t[2]}]", b.format("{}[%d]" % t[2])
            n[0] += 1
            nm = f"Ts{k}_{n[0]}"
            ms = [decl(x) for x in t[1]]
            td.append(f"{t[0]} {nm} {{ " + " ".join(f"{a} m{i};" for i, (a, b) in enumerate(ms)) + " }")
            cd.append(f"{t[0]} {nm} {{ " + " ".join(b.format(f"m{i}") + ";" for i, (a, b) in enumerate(ms)) + " };")
            return nm, f"{t[0]} {nm} {{}}"
        r = decl(c["ret"])
        ps = [decl(t) for t in c["params"]]
        td.append(f"fn {r[0]} fun{k}({', '.join(f'{a} p{i}' for i, (a, b) in enumerate(ps))}) @export(\"f{k}\") {{ " + ("" if c["ret"] == "void" else f"{r[0]} r; return r; ") + "}")
        cd.append(f"{r[1].format(f'f{k}')}({', '.join(b.format(f'p{i}') for i, (a, b) in enumerate(ps))}) {{ " + ("" if c["ret"] == "void" else f"{r[1].format('r')}; return r; ") + "}")
        return "\n".join(td), "\n".join(cd)

    def same(self, c, x, y):
        if c["target"] == "macos-aarch64" and not c.get("strict"):   # extension on Apple's targets is a known finding
            ext = lambda v: (v[0], [(t, [a for a in at if a not in ("zeroext", "signext")]) for t, at in v[2]])
            return ext(x) == ext(y)
        if c["target"] in ("linux-x64", "macos-x64"):
            # the same xmm or integer register, whatever type names it (memory is always marked byval or sret)
            u = "union" in str(c)
            def le(p, q):
                """p carries all that q does, in the same register"""
                if isinstance(p, tuple): return isinstance(q, tuple) and len(p) == len(q) and p[0] == q[0] and all(le(m, n) if not isinstance(m, int) else m == n for m, n in zip(p[1:], q[1:]))
                if isinstance(q, tuple): return False
                p, q = ("i64" if z == "ptr" else z for z in (p, q))
                if p[0] == q[0] == "i": return p == q if "i128" in (p, q) else int(p[1:]) >= int(q[1:])
                return p == q or u and p in FP and q in FP
            return x[1] == y[1] and len(x[2]) == len(y[2]) and all(a == b and le(p, q) for (p, a), (q, b) in zip([(x[0], ())] + x[2], [(y[0], ())] + y[2]))
        return False

    def render(self, c):
        a, b = self.emit(0, c)
        return {"target": c["target"], "c3": a, "c": b}

    def run(self, cases):
        res = [None] * len(cases)
        for tg in sorted({c["target"] for c in cases}):
            ix = [i for i, c in enumerate(cases) if c["target"] == tg]
            for i, r in zip(ix, self.group(tg, [cases[i] for i in ix])): res[i] = r
        return res

    def group(self, tg, cases):
        d = tempfile.mkdtemp(prefix="vf-abi-")
        try:
            cc = c3.c3c("dbg")
            src = [self.emit(k, c) for k, c in enumerate(cases)]
            open(f"{d}/a.c", "w").write("\n".join(b for a, b in src))
            r = c3.sh(["clang", "-w", "-S", "-emit-llvm", "-O0", "-o", f"{d}/c.ll", f"{d}/a.c"] + TARGETS[tg][1], cwd=d)
            if r.code: raise RuntimeError("clang: " + r.err.decode()[:300] if isinstance(r.err, bytes) else str(r.err)[:300])
            open(f"{d}/a.c3", "w").write("module a;\n" + "\n".join(a for a, b in src))
            r = c3.sh([cc, "compile-only", "--use-stdlib=no", "-O0", "-g0", "--emit-llvm", "--llvm-out", d, "a.c3"] + TARGETS[tg][0], cwd=d)
            if r.code or not os.path.exists(f"{d}/a.ll"):
                if len(cases) > 1:
                    h = len(cases) // 2
                    return self.group(tg, cases[:h]) + self.group(tg, cases[h:])
                return [f"{tg}: c3c failed: {str(r.out)[-300:]} {str(r.err)[-300:]}"]
            a, b = sig(open(f"{d}/a.ll").read(), tg), sig(open(f"{d}/c.ll").read(), tg)
            out = []
            for k in range(len(cases)):
                x, y = a.get(f"f{k}"), b.get(f"f{k}")
                if x is None or y is None: out.append(f"{tg}: no signature found {x} {y}"); continue
                out.append(None if x == y or self.same(cases[k], x, y) else f"{tg}: C3 passes {x}, C passes {y}")
            return out
        finally: shutil.rmtree(d, ignore_errors=True)


class C07(pbt.Check):
    id = "C07"
    rule = "a struct, union or array is passed or returned"
    families = [Sig()]


CHECK = C07()
