"""C05: operands and macro arguments are evaluated exactly once, in source order."""
from vf import pbt, pf

LEVELS = [("-O0",), ("-O1",), ("-O3",), ("-O0", "--safe=no", "-g0"), ("-O1", "-g0")]
PRE = pf.PRE + """faultdef FA;
fn int tr(int k, int v) @noinline { printf("%d:%d\\n", k, v); return v; }
fn bool trb(int k, bool v) @noinline { printf("%d:%d\\n", k, (int)v); return v; }
fn int? tro(int k, int v) @noinline { printf("%d:%d\\n", k, v); if (v & 1) return FA?; return v; }
int[4] arr = { 1, 2, 3, 4 };
int[<4>] vec = { 1, 2, 3, 4 };
struct Ss { int a; int b; int c; }
struct Sb { Ss s; int[3] z; long pad; }
bitstruct Bb : int { int x : 0..15; int y : 16..31; }
Bb gb; Ss gs; Sb gbig;
fn int* ptr(int k, int i) @noinline { printf("p%d:%d\\n", k, i); return &arr[i & 3]; }
fn Bb* bp(int k) @noinline { printf("b%d\\n", k); return &gb; }
fn Ss* sp(int k) @noinline { printf("s%d\\n", k); return &gs; }
fn Sb* bigp(int k) @noinline { printf("g%d\\n", k); return &gbig; }
fn Ss mk(int k, int a) @noinline { printf("k%d:%d\\n", k, a); return { a, a + 1, a + 2 }; }
fn Sb mkb(int k, int a) @noinline { printf("K%d:%d\\n", k, a); return { .s.a = a, .z = { a, 1, 2 } }; }
fn int[2] mk2(int k, int a) @noinline { printf("m%d:%d\\n", k, a); return { a, a + 1 }; }
fn int[4] mk4(int k, int a) @noinline { printf("q%d:%d\\n", k, a); return { a, a + 1, a + 2, a + 3 }; }
fn int[] slc(int k) @noinline { printf("S%d\\n", k); return &arr; }
fn int f1(int a) @noinline => a + 1;
fn int f2(int a, int b) @noinline => a * 3 + b;
fn int f3(int a, int b, int c) => a * 5 + b * 3 + c;
fn int fb(Sb s, int a, Sb t) @noinline => s.s.a * 7 + a * 3 + t.z[0];
fn int f7(int a, int b, int c, int d, int e, int f, int g) @noinline => a + b * 2 + c * 3 + d * 4 + e * 5 + f * 6 + g * 7;
fn int fd(int a, int b = tr(901, 5), int c = tr(902, 6)) @noinline => a * 2 + b * 3 + c;
fn int fdm(int a, int b = @dm(3), int c = arr[tr(903, 1)]) @noinline => a * 2 + b * 3 + c;
macro int @dm(x) => tr(904, x) + 1;
fn int va(int a, int... r) @noinline { int s = a; foreach (x : r) s = s * 3 + x; return s; }
fn int Ss.m(self, int x, int y) @noinline => self.a * 7 + x * 3 + y;
fn int Ss.mp(&self, int x, int y = tr(905, 2)) @noinline => self.b * 7 + x * 3 + y;
fn Ss Ss.add(self, int x) @noinline => { self.a + x, self.b + 1, self.c };
fn Ss* Ss.inc(&self, int x) @noinline { self.a += x; return self; }
macro int Ss.@mac(&self, x) => self.a * 2 + x;
macro mm(a, b) => b * 3 + a + b;
macro mo(a, b) { if (trb(910, a == b)) return a; return b * 2; }
macro @me(#a, b) => b * 3 + #a;
macro @me2(#a, #b) => #a * 3 + #b + #a;
macro @me0(#a, b) => b + $sizeof(#a);
macro md(a, b = tr(906, 1)) => a * 3 + b;
macro int mv(...) { int s; $for var $i = 0; $i < $vacount; $i++: s = s * 3 + $vaarg[$i]; $endfor return s; }
macro int mvr(...) { int s; $for var $i = $vacount - 1; $i >= 0; $i--: s = s * 3 + $vaarg[$i]; $endfor return s; }
macro int msp(...) => va($vasplat);
macro void @mbody(a; @body(x, y)) { @body(a, tr(907, 2)); @body(tr(908, 1), a); }
alias Fp = fn int(int, int);
fn Fp gf(int k) @noinline { printf("f%d\\n", k); return &f2; }
struct Ov { int v; }
fn Ov Ov.plus(self, Ov o) @operator(+) @noinline { printf("plus\\n"); return { self.v * 3 + o.v }; }
fn Ov Ov.times(self, int o) @operator_s(*) @noinline { printf("times\\n"); return { self.v * 2 + o }; }
fn bool Ov.same(self, Ov o) @operator(==) @noinline { printf("same\\n"); return self.v == o.v; }
fn int Ov.get(&self, int i) @operator([]) @noinline { printf("get\\n"); return arr[i & 3] + self.v; }
fn int* Ov.refer(&self, int i) @operator(&[]) @noinline { printf("ref\\n"); return &arr[i & 3]; }
fn void Ov.setter(&self, int i, int v) @operator([]=) @noinline { printf("set\\n"); arr[i & 3] = v; }
Ov gov = { 2 };
fn Ov* ov(int k) @noinline { printf("o%d\\n", k); return &gov; }
fn Ov mkov(int k, int v) @noinline { printf("O%d:%d\\n", k, v); return { v }; }
fn int sum(int[] x) @noinline { int s; foreach (y : x) s = s * 3 + y; return s; }
fn int ssum(Ss s) @noinline => s.a * 9 + s.b * 3 + s.c;
fn void reset() @noinline { arr = { 1, 2, 3, 4 }; vec = { 1, 2, 3, 4 }; gs = { 1, 2, 3 }; gb = {}; gbig = {}; gov = { 2 }; }
"""


def w(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v >> 31 else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Fault(Exception): pass


class M:
    """Reference evaluation: trace and state."""

    def __init__(self):
        self.t, self.arr, self.vec, self.gs, self.gb, self.ov = [], [1, 2, 3, 4], [1, 2, 3, 4], [1, 2, 3], [0, 0], 2
        self.z, self.loc = [0, 0, 0], [3, 5]

    def say(self, x): self.t.append(x)

    def tr(self, k, v):
        self.say(f"{k}:{v}")
        return v

    def bin(self, o, a, b):
        return w({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[o]())

    def ev(self, e):
        k, a = e[0], e[1:]
        E = self.ev
        if k == "c": return a[0]
        if k == "rd":
            if a[0][0] == "vec":
                old = list(self.vec)
                return old[self.ev(a[0][1]) & 3]
            return self.lv(a[0])[0]()
        if k == "tr": return self.tr(a[0], E(a[1]))
        if k == "bin":
            x = E(a[1]); y = E(a[2])
            return self.bin(a[0], x, y)
        if k == "cmp":
            x = E(a[1]); y = E(a[2])
            return int({"<": x < y, "==": x == y, ">=": x >= y, "!=": x != y}[a[0]])
        if k == "and": return int(bool(E(a[0])) and bool(E(a[1])))
        if k == "or": return int(bool(E(a[0])) or bool(E(a[1])))
        if k == "tern": return E(a[1]) if E(a[0]) else E(a[2])
        if k == "elvis": return E(a[0]) or E(a[1])
        if k == "neg": return w(-E(a[0]))
        if k == "cast": return E(a[0]) & 0xFFFF
        if k == "orelse":
            v = E(a[1])
            self.say(f"{a[0]}:{v}")
            return E(a[2]) if v & 1 else v
        if k == "f1": return w(E(a[0]) + 1)
        if k == "f2":
            x = [E(y) for y in a]
            return w(x[0] * 3 + x[1])
        if k == "f3":
            x = [E(y) for y in a]
            return w(x[0] * 5 + x[1] * 3 + x[2])
        if k == "f7":
            x = [E(y) for y in a]
            return w(sum(v * (i + 1) for i, v in enumerate(x)))
        if k == "fb":
            x = E(a[1]); self.say(f"K{a[0]}:{x}"); y = E(a[2]); z = E(a[3]); self.say(f"K{a[0] + 1}:{z}")
            return w(x * 7 + y * 3 + z)
        if k == "fd":
            n, q = a[0], list(a[1:])
            x = [E(q[0])]
            b = E(q[1]) if n in ("ab", "abc") else self.tr(901, 5)
            c = E(q[-1]) if n in ("ac", "abc") else self.tr(902, 6)
            return w(x[0] * 2 + b * 3 + c)
        if k == "fdm":
            x = [E(y) for y in a]
            b = x[1] if len(x) > 1 else self.tr(904, 3) + 1
            c = self.arr[self.tr(903, 1)]
            return w(x[0] * 2 + b * 3 + c)
        if k in ("va", "msp", "vasl"):
            x = [E(y) for y in a]
            s = x[0]
            for y in x[1:]: s = w(s * 3 + y)
            return s
        if k == "splat":
            pre = [E(y) for y in a[1]]
            v = E(a[2]); self.say(f"m{a[0]}:{v}")
            x = pre + [v, w(v + 1)] + [E(y) for y in a[3]]
            s = x[0]
            for y in x[1:]: s = w(s * 3 + y)
            return s
        if k == "m":
            v = E(a[1]); self.say(f"k{a[0]}:{v}"); x = E(a[2]); y = E(a[3])
            return w(v * 7 + x * 3 + y)
        if k == "mp":
            self.say(f"s{a[0]}")
            x = E(a[1]); y = E(a[2]) if len(a) > 2 else self.tr(905, 2)
            return w(self.gs[1] * 7 + x * 3 + y)
        if k == "chain":
            v = E(a[1]); self.say(f"k{a[0]}:{v}")
            for y in a[2]: v = w(v + E(y))
            return v
        if k == "pchain":
            self.say(f"s{a[0]}")
            for y in a[1]:
                v = E(y)
                self.gs[0] = w(self.gs[0] + v)
            return self.gs[0]
        if k == "smac":
            self.say(f"s{a[0]}")
            x = E(a[1])
            return w(self.gs[0] * 2 + x)
        if k == "mm":
            x, y = E(a[0]), E(a[1])
            return w(y * 3 + x + y)
        if k == "mo":
            x, y = E(a[0]), E(a[1])
            self.say(f"910:{int(x == y)}")
            return x if x == y else w(y * 2)
        if k == "me":
            y = E(a[1])
            return w(y * 3 + E(a[0]))
        if k == "me2":
            x = E(a[0]); y = E(a[1]); z = E(a[0])
            return w(x * 3 + y + z)
        if k == "me0": return w(E(a[1]) + 4)
        if k == "md":
            x = E(a[0]); y = E(a[1]) if len(a) > 1 else self.tr(906, 1)
            return w(x * 3 + y)
        if k in ("mv", "mvr"):
            s = 0
            for y in (a if k == "mv" else a[::-1]): s = w(s * 3 + E(y))
            return s
        if k == "gf":
            self.say(f"f{a[0]}")
            x, y = E(a[1]), E(a[2])
            return w(x * 3 + y)
        if k == "idx": return self.arr[E(a[0]) & 3]
        if k == "idx4":
            v = E(a[1]); self.say(f"q{a[0]}:{v}")
            return w(v + (E(a[2]) & 3))
        if k == "sidx":
            self.say(f"S{a[0]}")
            return self.arr[E(a[1]) & 3]
        if k == "slice":
            self.say(f"S{a[0]}")
            x = E(a[1]) & 1; y = (E(a[2]) & 1) + 2
            s = 0
            for v in self.arr[x:y + 1]: s = w(s * 3 + v)
            return s
        if k == "slen":
            x = E(a[0]) & 1; y = E(a[1]) & 1
            s = 0
            for v in self.arr[x:x + y + 1]: s = w(s * 3 + v)
            return s
        if k in ("init", "slinit"):
            s = 0
            for v in [E(y) for y in a]: s = w(s * 3 + v)
            return s
        if k == "desig":
            f = [0, 0, 0]
            for n, y in a[0]: f["abc".index(n)] = E(y)
            return w(f[0] * 9 + f[1] * 3 + f[2])
        if k == "adesig":
            f = [0] * 4
            for n, y in a[0]: f[n] = E(y)
            s = 0
            for v in f: s = w(s * 3 + v)
            return s
        if k == "ninit":
            x = [E(y) for y in a]
            return w(x[0] * 9 + x[1] * 3 + x[2] + w(x[3] * 9 + x[4] * 3))
        if k == "vinit":
            return w(sum(E(y) for y in a))
        if k == "deref":
            v = E(a[1]); self.say(f"p{a[0]}:{v}")
            return self.arr[v & 3]
        if k == "lam":
            x, y = E(a[0]), E(a[1])
            return w(x - y)
        if k == "ovplus":
            x = E(a[1]); self.say(f"O{a[0]}:{x}"); y = E(a[2]); self.say(f"O{a[0] + 1}:{y}"); self.say("plus")
            return w(x * 3 + y)
        if k == "ovtimes":
            x = E(a[1]); self.say(f"O{a[0]}:{x}"); y = E(a[2]); self.say("times")
            return w(x * 2 + y)
        if k == "ovtimesr":
            x = E(a[1]); y = E(a[2]); self.say(f"O{a[0]}:{y}"); self.say("times")
            return w(y * 2 + x)
        if k == "oveq":
            x = E(a[1]); self.say(f"O{a[0]}:{x}"); y = E(a[2]); self.say(f"O{a[0] + 1}:{y}"); self.say("same")
            return int(x == y)
        if k == "ovget":
            self.say(f"o{a[0]}")
            i = E(a[1]); self.say("get")
            return w(self.arr[i & 3] + 2)
        if k == "asg": return self.assign(a[0], a[1], a[2])
        if k == "inc":
            g, s = self.lv(a[0])
            old = g()
            new = w(old + (1 if "++" in a[1] else -1))
            s(new)
            r = new if a[1].endswith("x") else old
            return r
        raise KeyError(k)

    def lv(self, l):
        k = l[0]
        if k == "loc": return (lambda: self.loc[l[1]]), (lambda v: self.loc.__setitem__(l[1], v))
        if k in ("arr", "vec", "sarr"):
            if k == "sarr": self.say(f"S{l[2]}")
            i = self.ev(l[1]) & 3
            A = self.vec if k == "vec" else self.arr
            return (lambda: A[i]), (lambda v: A.__setitem__(i, v))
        if k == "ptr":
            v = self.ev(l[2])
            self.say(f"p{l[1]}:{v}")
            i = v & 3
            return (lambda: self.arr[i]), (lambda v: self.arr.__setitem__(i, v))
        if k == "sp":
            self.say(f"s{l[1]}")
            i = "abc".index(l[2])
            return (lambda: self.gs[i]), (lambda v: self.gs.__setitem__(i, v))
        if k == "big":
            self.say(f"g{l[1]}")
            i = self.ev(l[2]) % 3 if l[2][0] != "c" else l[2][1] % 3
            return (lambda: self.z[i]), (lambda v: self.z.__setitem__(i, v))
        if k == "bp":
            self.say(f"b{l[1]}")
            i = "xy".index(l[2])

            def put(v):
                v &= 0xFFFF
                self.gb[i] = v - 65536 if v >> 15 else v
            return (lambda: self.gb[i]), put
        raise KeyError(k)

    def assign(self, op, l, r):
        g, s = self.lv(l)
        if op == "=":
            v = self.ev(r)
            s(v)
        else:
            old = g()
            v = self.ev(r)
            s(self.bin(op[0], old, v))
        return g()

    def stmt(self, s):
        k = s[0]
        if k == "show": self.say(f"={self.ev(s[1])}")
        elif k == "asg": self.assign(s[1], s[2], s[3])
        elif k == "inc": self.ev(["inc", s[1], s[2]])
        elif k == "fill":
            v = self.ev(s[3])
            x = self.ev(s[1]) & 1
            y = (self.ev(s[2]) & 1) + 2
            for i in range(x, y + 1): self.arr[i] = v
        elif k == "scopy":
            v = self.ev(s[2])
            self.say(f"q{s[1]}:{v}")
            x = self.ev(s[3]) & 1
            for i in range(3): self.arr[x + i] = w(v + i)
        elif k == "ovset":
            self.say(f"o{s[1]}")
            i = self.ev(s[2]); v = self.ev(s[3]); self.say("set")
            self.arr[i & 3] = v
        elif k == "ovcomp":
            self.say(f"o{s[1]}")
            i = self.ev(s[2]); self.say("ref"); old = self.arr[i & 3]; v = self.ev(s[3])
            self.arr[i & 3] = self.bin(s[4], old, v)
        elif k == "mbody":
            x = self.ev(s[1]); y = self.tr(907, 2); self.tr(900, w(x + y))
            x2 = self.tr(908, 1); self.tr(900, w(x2 + x))
        elif k == "swz":
            v = [self.ev(x) for x in s[1]]
            self.vec[2], self.vec[0] = v
        elif k == "chainasg":
            i = self.ev(s[1]) & 3; g, st = self.lv(s[2]); v = self.ev(s[3])
            st(v); self.arr[i] = g()
        elif k == "try":
            v = self.ev(s[2]); self.say(f"{s[1]}:{v}")
            if v & 1: self.say("caught"); return
            x = self.ev(s[4]); self.say(f"{s[3]}:{x}")
            if x & 1: self.say("caught"); return
            self.say(f"={w(v * 3 + x)}")
        else: raise KeyError(k)


def T(e):
    k, a = e[0], e[1:]
    J = lambda xs: ", ".join(map(T, xs))
    if k == "rd": return f"({TL(a[0])})"
    if k == "c": return str(a[0]) if a[0] >= 0 else f"({a[0]})"
    if k == "tr": return f"tr({a[0]}, {T(a[1])})"
    if k == "bin": return f"({T(a[1])} {a[0]} {T(a[2])})"
    if k == "cmp": return f"(int)({T(a[1])} {a[0]} {T(a[2])})"
    if k == "and": return f"(int)((bool){T(a[0])} && (bool){T(a[1])})"
    if k == "or": return f"(int)((bool){T(a[0])} || (bool){T(a[1])})"
    if k == "tern": return f"({T(a[0])} ? {T(a[1])} : {T(a[2])})"
    if k == "elvis": return f"({T(a[0])} ?: {T(a[1])})"
    if k == "neg": return f"(-{T(a[0])})"
    if k == "cast": return f"(int)(ushort){T(a[0])}"
    if k == "orelse": return f"(tro({a[0]}, {T(a[1])}) ?? {T(a[2])})"
    if k in ("f1", "f2", "f3", "f7", "va", "mm", "mo", "mv", "mvr", "md", "msp", "fdm"): return f"{k}({J(a)})"
    if k == "vasl": return f"va({T(a[0])}, ...(int[{len(a) - 1}]){{ {J(a[1:])} }})"
    if k == "fb": return f"fb(mkb({a[0]}, {T(a[1])}), {T(a[2])}, mkb({a[0] + 1}, {T(a[3])}))"
    if k == "fd":
        x = [T(y) for y in a[1:]]
        return {"a": lambda: f"fd({x[0]})", "ab": lambda: f"fd({x[0]}, {x[1]})", "abc": lambda: f"fd({x[0]}, b: {x[1]}, c: {x[2]})", "ac": lambda: f"fd({x[0]}, c: {x[1]})"}[a[0]]()
    if k == "splat": return f"va({', '.join([T(x) for x in a[1]] + [f'...mk2({a[0]}, {T(a[2])})'] + [T(x) for x in a[3]])})"
    if k == "m": return f"mk({a[0]}, {T(a[1])}).m({T(a[2])}, {T(a[3])})"
    if k == "mp": return f"sp({a[0]}).mp({J(a[1:])})"
    if k == "chain": return f"mk({a[0]}, {T(a[1])})" + "".join(f".add({T(y)})" for y in a[2]) + ".a"
    if k == "pchain": return f"sp({a[0]})" + "".join(f".inc({T(y)})" for y in a[1]) + ".a"
    if k == "smac": return f"sp({a[0]}).@mac({T(a[1])})"
    if k in ("me", "me2", "me0"): return f"(int)@{k}({J(a)})" if k == "me0" else f"@{k}({J(a)})"
    if k == "gf": return f"gf({a[0]})({T(a[1])}, {T(a[2])})"
    if k == "idx": return f"arr[{T(a[0])} & 3]"
    if k == "idx4": return f"mk4({a[0]}, {T(a[1])})[{T(a[2])} & 3]"
    if k == "sidx": return f"slc({a[0]})[{T(a[1])} & 3]"
    if k == "slice": return f"sum(slc({a[0]})[{T(a[1])} & 1..({T(a[2])} & 1) + 2])"
    if k == "slen": return f"sum(arr[{T(a[0])} & 1:({T(a[1])} & 1) + 1])"
    if k == "init": return f"sum(&&(int[{len(a)}]){{ {J(a)} }})"
    if k == "slinit": return f"sum({{ {J(a)} }})"
    if k == "desig": return f"ssum({{ {', '.join(f'.{n} = {T(y)}' for n, y in a[0])} }})"
    if k == "adesig": return f"sum(&&(int[4]){{ {', '.join(f'[{n}] = {T(y)}' for n, y in a[0])} }})"
    if k == "ninit": return f"sum2({{ {{ {J(a[:3])} }}, {{ .a = {T(a[3])}, .b = {T(a[4])} }} }})"
    if k == "vinit": return f"vsum({{ {J(a)} }})"
    if k == "deref": return f"*ptr({a[0]}, {T(a[1])})"
    if k == "lam": return f"(fn int (int x, int y) => x - y)({T(a[0])}, {T(a[1])})"
    if k == "ovplus": return f"(mkov({a[0]}, {T(a[1])}) + mkov({a[0] + 1}, {T(a[2])})).v"
    if k == "ovtimes": return f"(mkov({a[0]}, {T(a[1])}) * {T(a[2])}).v"
    if k == "ovtimesr": return f"({T(a[1])} * mkov({a[0]}, {T(a[2])})).v"
    if k == "oveq": return f"(int)(mkov({a[0]}, {T(a[1])}) == mkov({a[0] + 1}, {T(a[2])}))"
    if k == "ovget": return f"(*ov({a[0]}))[{T(a[1])}]"
    if k == "asg": return f"({TL(a[1])} {a[0]} {T(a[2])})"
    if k == "inc": return "(" + a[1].replace("x", TL(a[0])) + ")"
    raise KeyError(k)


def TL(l):
    k = l[0]
    if k == "loc": return "l" + "ab"[l[1]]
    if k in ("arr", "vec"): return f"{k}[{T(l[1])} & 3]"
    if k == "sarr": return f"slc({l[2]})[{T(l[1])} & 3]"
    if k == "ptr": return f"(*ptr({l[1]}, {T(l[2])}))"
    if k == "sp": return f"sp({l[1]}).{l[2]}"
    if k == "big": return f"bigp({l[1]}).z[{T(l[2]) if l[2][0] == 'c' else T(l[2])} % 3]" if l[2][0] != "c" else f"bigp({l[1]}).z[{l[2][1] % 3}]"
    if k == "bp": return f"bp({l[1]}).{l[2]}"


def TS(s):
    k = s[0]
    if k == "show": return f"z = {T(s[1])}; printf(\"=%d\\n\", z);"
    if k == "asg": return f"{TL(s[2])} {s[1]} {T(s[3])};"
    if k == "inc": return s[2].replace("x", TL(s[1])) + ";"
    if k == "fill": return f"arr[{T(s[1])} & 1..({T(s[2])} & 1) + 2] = {T(s[3])};"
    if k == "scopy": return f"arr[{T(s[3])} & 1:3] = mk4({s[1]}, {T(s[2])})[0:3];"
    if k == "ovset": return f"(*ov({s[1]}))[{T(s[2])}] = {T(s[3])};"
    if k == "ovcomp": return f"(*ov({s[1]}))[{T(s[2])}] {s[4]}= {T(s[3])};"
    if k == "mbody": return f"@mbody({T(s[1])}; int x, int y) {{ tr(900, x + y); }};"
    if k == "swz": return f"vec.zx = {{ {T(s[1][0])}, {T(s[1][1])} }};"
    if k == "chainasg": return f"arr[{T(s[1])} & 3] = {TL(s[2])} = {T(s[3])};"
    if k == "try": return f"if (try x = tro({s[1]}, {T(s[2])}) && try y = tro({s[3]}, {T(s[4])})) {{ printf(\"=%d\\n\", x * 3 + y); }} else {{ printf(\"caught\\n\"); }}"


PRE += """fn int sum2(Ss[2] s) @noinline => ssum(s[0]) + ssum(s[1]);
fn int vsum(int[<4>] v) @noinline => v[0] + v[1] + v[2] + v[3];
"""
ARITY = {"f1": 1, "f2": 2, "f3": 3, "f7": 7, "mm": 2, "mo": 2, "me": 2, "me2": 2, "me0": 2, "lam": 2, "and": 2, "or": 2, "tern": 3, "elvis": 2, "neg": 1, "cast": 1, "idx": 1, "slen": 2, "ninit": 5, "vinit": 4}
TAGGED = {"m": 3, "smac": 1, "gf": 2, "idx4": 2, "sidx": 1, "slice": 2, "deref": 1, "ovplus": 2, "ovtimes": 2, "ovtimesr": 2, "oveq": 2, "ovget": 1, "orelse": 2, "fb": 3}
VAR = {"va": (1, 4), "vasl": (2, 4), "msp": (1, 4), "mv": (1, 4), "mvr": (1, 4), "md": (1, 2), "fdm": (1, 2), "init": (1, 4), "slinit": (1, 4)}
KINDS = sorted(ARITY) + sorted(TAGGED) + sorted(VAR) + ["bin", "bin", "cmp", "fd", "splat", "mp", "chain", "pchain", "desig", "adesig", "asg", "inc", "asg", "inc", "rd", "rd", "rd"]


class Gen:
    def __init__(self, s):
        self.s, self.k = s, 0

    def tag(self):
        self.k += 2
        return self.k

    def leaf(self):
        return ["tr", self.tag(), ["c", self.s.int(-3, 9)]]

    def e(self, d):
        s = self.s
        if d <= 0 or s.bool(1, 6): return self.leaf()
        k = s.choice(KINDS)
        E = lambda: self.e(d - 1)
        if k in ARITY: return [k] + [E() for _ in range(ARITY[k])]
        if k in TAGGED: return [k, self.tag()] + [E() for _ in range(TAGGED[k])]
        if k in VAR: return [k] + s.list(*VAR[k], E)
        if k == "bin": return [k, s.choice("+-*&|^"), E(), E()]
        if k == "cmp": return [k, s.choice(["<", "==", ">=", "!="]), E(), E()]
        if k == "fd":
            f = s.choice(["a", "ab", "abc", "ac"])
            return [k, f] + [E() for _ in f]
        if k == "splat":
            p = s.list(0, 2, E)
            return [k, self.tag(), p or [E()], E(), s.list(0, 2, E)]
        if k == "mp": return [k, self.tag()] + s.list(1, 2, E)
        if k == "chain": return [k, self.tag(), E(), s.list(1, 3, E)]
        if k == "pchain": return [k, self.tag(), s.list(1, 3, E)]
        if k == "desig":
            n = s.choice(["a", "ab", "ba", "cab", "acb", "bca", "cba"])
            return [k, [[x, E()] for x in n]]
        if k == "adesig":
            n = s.choice([[0], [3, 0], [1, 2], [2, 1, 3], [3, 2, 1, 0]])
            return [k, [[x, E()] for x in n]]
        if k == "asg": return [k, s.choice(["=", "+=", "-=", "^=", "|="]), self.lv(d - 1), E()]
        if k == "inc": return [k, self.lv(d - 1), s.choice(["++x", "x++", "--x", "x--"])]
        if k == "rd": return [k, self.lv(d - 1)]

    def lv(self, d):
        s = self.s
        k = s.choice(["arr", "vec", "ptr", "sp", "bp", "sarr", "big", "loc"])
        if k == "loc": return [k, s.draw(1)]
        if k == "sarr": return [k, self.e(d), self.tag()]
        if k in ("arr", "vec"): return [k, self.e(d)]
        if k == "ptr": return [k, self.tag(), self.e(d)]
        if k == "sp": return [k, self.tag(), s.choice("abc")]
        if k == "bp": return [k, self.tag(), s.choice("xy")]
        return [k, self.tag(), ["c", s.draw(2)] if s.bool() else ["tr", self.tag(), ["c", s.draw(8)]]]

    def stmt(self):
        s = self.s
        d = s.int(1, 3)
        k = s.weighted([(6, "show"), (4, "asg"), (2, "inc"), (1, "fill"), (1, "scopy"), (1, "ovset"), (1, "ovcomp"), (1, "swz"), (1, "chainasg"), (1, "try"), (1, "mbody")])
        if k == "show": return [k, self.e(d)]
        if k == "asg": return [k, s.choice(["=", "+=", "*=", "-=", "|=", "&="]), self.lv(d), self.e(d)]
        if k == "inc": return [k, self.lv(d), s.choice(["++x", "x++", "--x", "x--"])]
        if k == "fill": return [k, self.e(d - 1), self.e(d - 1), self.e(d - 1)]
        if k == "scopy": return [k, self.tag(), self.e(d - 1), self.e(d - 1)]
        if k == "mbody": return [k, self.e(d - 1)]
        if k == "ovset": return [k, self.tag(), self.e(d - 1), self.e(d - 1)]
        if k == "ovcomp": return [k, self.tag(), self.e(d - 1), self.e(d - 1), s.choice("+-*")]
        if k == "swz": return [k, [self.e(d - 1), self.e(d - 1)]]
        if k == "chainasg": return [k, self.e(d - 1), self.lv(d - 1), self.e(d - 1)]
        return [k, self.tag(), self.e(d - 1), self.tag(), self.e(d - 1)]


def kinds(x, out):
    if isinstance(x, list):
        if x and isinstance(x[0], str): out.add(x[0])
        for y in x: kinds(y, out)
    return out


def ntr(x):
    return (x[:1] == ["tr"]) + sum(ntr(y) for y in x if isinstance(y, list)) if isinstance(x, list) else 0


class Order(pf.PF):
    name = "order"
    quick, thorough = 3000, 80000
    levels = LEVELS
    pre = PRE
    batch = 30

    def gen(self, s):
        g = Gen(s)
        st = [g.stmt() for _ in range(s.int(1, 4))]
        if ntr(st) > 45: st = [["show", g.leaf()]]
        return {"stmts": st, "level": s.draw(len(LEVELS) - 1)}

    def nontrivial(self, c): return ntr(c["stmts"]) >= 3
    def labels(self, c): return kinds(c["stmts"], set()) | {" ".join(self.level(c))}

    def reduce(self, c):
        def subs(x):
            if not isinstance(x, list): return
            if x and isinstance(x[0], str) and x[0] in KINDS and x[0] != "tr":
                yield ["tr", 1, ["c", 2]]
                for y in x[1:]:
                    if isinstance(y, list) and y and isinstance(y[0], str) and (y[0] in KINDS or y[0] == "tr"): yield y
            for i, y in enumerate(x):
                for z in subs(y): yield x[:i] + [z] + x[i + 1:]
        st = c["stmts"]
        for i in range(len(st)):
            if len(st) > 1: yield {**c, "stmts": st[:i] + st[i + 1:]}
        for i in range(len(st)):
            for z in subs(st[i]): yield {**c, "stmts": st[:i] + [z] + st[i + 1:]}

    def valid(self, c):
        try:
            m = M()
            for s in c["stmts"]: m.stmt(s); TS(s)
            return True
        except Exception:
            return False

    def emit(self, k, c):
        m = M()
        B = "\treset(); int z; int la = 3; int lb = 5;\n"
        for s in c["stmts"]:
            m.stmt(s)
            B += "\t" + TS(s) + "\n"
        B += '\tprintf("%d %d %d %d\\n", arr[0], arr[1], arr[2], arr[3]); printf("%d %d %d %d\\n", vec[0], vec[1], vec[2], vec[3]); printf("%d %d %d %d %d\\n", gs.a, gs.b, gs.c, gb.x, gb.y); printf("%d %d %d %d %d\\n", gbig.z[0], gbig.z[1], gbig.z[2], la, lb);'
        j = lambda *x: " ".join(map(str, x))
        return "", B, m.t + [j(*m.arr), j(*m.vec), j(*m.gs, *m.gb), j(*m.z, *m.loc)]


class C05(pbt.Check):
    id = "C05"
    rule = "at least 3 operands with side effects"
    assumptions = ["a slice fill or slice copy evaluates its value before its bounds (as implemented; the language leaves it open)", "reading a lane of a vector reads the vector before the index is evaluated (as implemented)"]
    families = [Order()]


CHECK = C05()
