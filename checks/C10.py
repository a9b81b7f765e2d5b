"""C10: safe mode panics exactly at the violations."""
from vf import pbt, pf, c3
from checks.C08 import link

INTS = {"ichar": (8, 1), "char": (8, 0), "short": (16, 1), "ushort": (16, 0), "int": (32, 1), "uint": (32, 0), "long": (64, 1), "ulong": (64, 0)}
ALL = dict(INTS, int128=(128, 1), uint128=(128, 0))
LEVELS = [("-O0",), ("-O1",), ("-O2", "--safe=yes"), ("-O3", "--safe=yes"), ("-Os", "--safe=yes", "--panic-msg=yes"), ("-O0", "--safe=yes")]
PRE = pf.PRE + """enum Enu : char { E0, E1, E2, E3, E4 }
enum Fnu : ushort { F0, F1, F2 }
faultdef OOPS, EEK;
struct Pt { int a; char b; long c; }
fn int? maybe(long v) @noinline { if (v == 0) return OOPS?; if (v == 1) return EEK?; return (int)v * 2; }
fn int* nully(long v, int* p) @noinline { return v == 0 ? null : p; }
fn Pt* nullp(long v, Pt* p) @noinline { return v == 0 ? null : p; }
extern fn void jump();
extern fn void guard(void* f);
fn void onpanic(String msg, String file, String func, uint line) @noinline { printf("panic=%d\\n", line); jump(); }
alias PanicFn2 = fn void(String message, String file, String function, uint line);
PanicFn2 panicker = &onpanic;
<*
 @require a >= 0
 @require a != 3, b < 10 : "b must be small"
*>
fn int req(int a, int b) @noinline { return a * 10 + b; }
<* @ensure return < 50, return != 7 *>
fn int ens(int a) @noinline { if (a == 1) return (int)idl(7); return a * 5; }
<*
 @require a > 0 && a < 4
 @ensure return == a + 1
*>
fn int both(int a) @noinline { return (int)idl((long)(a == 2 ? 1 : a + 1)); }
<* @param [&in] p *>
fn int nn(int* p) @noinline { return *p; }
<* @require x < 6 *>
macro int mreq(x) { return x + 1; }
<* @require self.a > 0 *>
fn int Pt.get(&self) @noinline { return self.a; }
fn int Pt.plain(&self) @noinline { return self.a; }
"""
CSRC = """#include <setjmp.h>
#include <stdio.h>
static jmp_buf jb;
void jump(void) { longjmp(jb, 1); }
void guard(void (*f)(void)) { if (!setjmp(jb)) f(); }
void c3main(void);
int main(void) { c3main(); return 0; }
"""


def near(s, t, lo, hi):
    """A value of type t around [lo, hi]."""
    b, sg = ALL[t]
    tl, th = (-(1 << b - 1), (1 << b - 1) - 1) if sg else (0, (1 << b) - 1)
    k = s.draw(9)
    if k <= 5: v = s.int(lo, max(lo, hi))
    elif k == 6: v = hi + s.int(0, 2)
    elif k == 7: v = lo - s.int(0, 2)
    elif k == 8: v = s.choice([tl, th, tl + 1, th - 1, hi + 256, hi + 65536, lo - 256, (1 << 32) + lo, -(1 << 32) + lo])
    else: v = s.inum(b, sg)
    if not tl <= v <= th:
        v = lo if tl <= lo <= th else 0
    return v


def rt(t, v):
    if t == "uint128" or t == "int128":
        m = v & (1 << 128) - 1
        return f"(({t})idw(((uint128)0x{m >> 64:x}UL << 64) | (uint128)0x{m & (1 << 64) - 1:x}UL))"
    return f"(({t})(ulong)idl((long)0x{v & (1 << 64) - 1:x}UL))"


def slicing(form, n, a, b):
    """-> (start, length) or None for a violation."""
    if form == "s..e": st, en = a, b + 1
    elif form == "s..": return (a, n - a) if 0 <= a <= n else None
    elif form == "..e": st, en = 0, b + 1
    elif form == "s:n": return (a, b) if 0 <= a <= n and b >= 0 and a + b <= n else None
    elif form == ":n": return (0, b) if 0 <= b <= n else None
    elif form == "^s..": return (n - a, a) if 0 <= a <= n else None
    elif form == "s..^e": st, en = a, n - b + 1
    elif form == "^s..^e": st, en = n - a, n - b + 1
    elif form == "^s:n": return (n - a, b) if 0 <= a <= n and b >= 0 and b <= a else None
    if not 0 <= st <= n or not 0 < en <= n or st >= en:
        return None
    return st, en - st


def stext(form, a, b):
    return {"s..e": f"{a}..{b}", "s..": f"{a}..", "..e": f"..{b}", "s:n": f"{a}:{b}", ":n": f":{b}", "^s..": f"^{a}..", "s..^e": f"{a}..^{b}",
            "^s..^e": f"^{a}..^{b}", "^s:n": f"^{a}:{b}"}[form]


FORMS = ["s..e", "s..", "..e", "s:n", ":n", "^s..", "s..^e", "^s..^e", "^s:n"]
SLICEABLE = ["int", "uint", "long", "ulong", "short", "ushort", "char", "ichar"]


def elem(i):
    return 10 * i + 1


def empty_tail(p):
    """a[a.len..] of an array: an error for constants, so its meaning at run time (a slice gives an empty one) is left open."""
    return p[0] in ("slice", "sliceset") and (p[0] == "sliceset" or p[1] == "array") and (p[-3] == "s.." and p[-2] == p[-5] or p[-3] == "^s.." and p[-2] == 0)


def trim(p):
    if empty_tail(p):
        p[-2] = p[-5] - 1 if p[-3] == "s.." else 1
    return p


class Probes(pf.PF):
    name = "probes"
    quick, thorough = 5000, 80000
    levels = LEVELS
    pre = PRE
    kinds = ["index", "index", "index", "slice", "slice", "slice", "sliceset", "copy", "div", "div", "shift", "shift", "null", "enum", "unwrap", "assert", "contract", "vecdiv", "vecshift", "loop", "nest"]

    def probe(self, s):
        k = s.choice(self.kinds)
        if k == "index":
            n = s.int(1, 7)
            t = s.choice(sorted(INTS))
            end = s.bool(1, 4)
            return [k, s.choice(["array", "slice", "vector", "dyn", "inner"]), n, t, near(s, t, 1 if end else 0, n if end else n - 1), end, s.choice(["read", "write", "addr", "comp", "inc"])]
        if k == "slice":
            n = s.int(1, 7)
            t = s.choice(SLICEABLE)
            return trim([k, s.choice(["array", "slice", "dyn", "string"]), n, t, s.choice(FORMS), near(s, t, 0, n), near(s, t, 0, n)])
        if k == "sliceset":
            n = s.int(1, 7)
            t = s.choice(SLICEABLE)
            return trim([k, n, t, s.choice(FORMS), near(s, t, 0, n), near(s, t, 0, n)])
        if k == "copy":
            n = s.int(1, 5)
            return [k, n, s.int(0, n), s.int(0, n)]
        if k in ("div",):
            t = s.choice(sorted(ALL))
            a = s.inum(*ALL[t])
            b = 0 if s.bool(1, 3) else s.inum(*ALL[t])
            if b == -1: b = 3
            return [k, t, s.choice(["/", "%"]), a, b, s.bool(1, 3)]
        if k == "shift":
            t = s.choice(sorted(ALL))
            u = s.choice(sorted(INTS))
            return [k, t, s.choice(["<<", ">>"]), s.inum(*ALL[t]), u, near(s, u, 0, ALL[t][0] - 1) if s.bool(2, 3) else near(s, u, ALL[t][0] - 2, ALL[t][0] + 1), s.bool(1, 3)]
        if k == "null":
            return [k, s.choice(["read", "write", "self", "notnull"]), s.weighted([(2, 1), (1, 0)])]
        if k == "enum":
            t = s.choice(sorted(INTS))
            e = s.choice(["Enu", "Fnu"])
            n = {"Enu": 5, "Fnu": 3}[e]
            return [k, e, t, near(s, t, 0, n - 1), "ordinal"]
        if k == "unwrap":
            return [k, s.weighted([(1, 0), (1, 1), (3, s.int(2, 9))])]
        if k == "assert":
            return [k, s.int(0, 5), s.bool()]
        if k == "contract":
            f = s.choice(["req", "ens", "both", "mreq", "method"])
            return [k, f, s.choice([-1, 0, 1, 2, 3, 4, 5, 6, 9, 10, 11]), s.choice([0, 5, 9, 10, 11])]
        if k == "vecdiv":
            n = s.choice([2, 3, 4, 8])
            t = s.choice(["char", "int", "long", "ushort"])
            return [k, t, s.choice(["/", "%"]), [s.int(0, 100) for _ in range(n)], [s.int(0, 3) if s.bool(1, 4) else s.int(1, 9) for _ in range(n)]]
        if k == "vecshift":
            n = s.choice([2, 3, 4, 8])
            t = s.choice(sorted(INTS))
            bits, sg = INTS[t]
            def by():
                if s.bool(7, 8): return s.int(0, bits - 1)
                if sg and s.bool(): return s.choice([-1, -2, -bits, -(1 << bits - 1)])
                return s.int(bits - 2, bits + 1)
            return [k, t, s.choice(["<<", ">>"]), [s.int(-100 if sg else 0, 100) for _ in range(n)], [by() for _ in range(n)]]
        if k == "loop":
            n = s.int(1, 6)
            return [k, s.choice(["array", "slice", "dyn"]), n, s.choice(["int", "usz", "char"]), s.int(0, n), s.int(1, 4), s.choice([1, -1])]
        if k == "nest":
            r, q = s.int(1, 4), s.int(1, 4)
            t, u = s.choice(sorted(INTS)), s.choice(sorted(INTS))
            return [k, r, q, t, near(s, t, 0, r - 1), u, near(s, u, 0, q - 1)]

    def gen(self, s):
        return {"probes": [self.probe(s) for _ in range(s.int(1, 6))], "wrap": s.choice(["plain", "if", "call", "defer"]), "level": s.draw(len(self.levels) - 1)}

    def valid(self, c):
        return not any(empty_tail(p) for p in c["probes"])

    def labels(self, c):
        return sorted({p[0] for p in c["probes"]}) + ["panics" if any(x.startswith("panic") for x in self.emit(0, c)[2]) else "runs through", " ".join(LEVELS[c["level"]])]

    def nontrivial(self, c):
        return any(x.startswith("panic") for x in self.emit(0, c)[2]) or len(c["probes"]) >= 3

    def one(self, i, p):
        """-> (text on one line, printed lines, panics?)"""
        k = p[0]
        arr = lambda n: f"int[{n}] a = {{ {', '.join(str(elem(j)) for j in range(n))} }};"
        if k == "index":
            _, form, n, t, v, end, how = p
            ok = 1 <= v <= n if end else 0 <= v < n
            x = n - v if end else v
            pre = f"{t} i = {rt(t, v)}; "
            if form == "vector":
                pre += f"int[<{n}>] a = {{ {', '.join(str(elem(j)) for j in range(n))} }};"
                if how == "addr": how = "read"
            elif form == "inner": pre += f"struct Wx {{ char z; int[{n}] y; }} " if False else f"int[{n}][2] bb; bb[1] = {{ {', '.join(str(elem(j)) for j in range(n))} }};"
            else: pre += arr(n) + (" int[] sl = &a;" if form == "slice" else f" int[] sl = ((int*)&a)[:(usz)idl({n})];" if form == "dyn" else "")
            A = {"array": "a", "vector": "a", "slice": "sl", "dyn": "sl", "inner": "bb[1]"}[form]
            I = f"{A}[{'^' if end else ''}i]"
            if how == "read": return pre + f' pl("p", (long){I});', [f"p={elem(x)}"], not ok
            if how == "write": return pre + f' {I} = 5; pl("p", (long){I});', ["p=5"], not ok
            if how == "comp": return pre + f' {I} += 5; pl("p", (long){I});', [f"p={elem(x) + 5}"], not ok
            if how == "inc": return pre + f' {I}++; pl("p", (long){I});', [f"p={elem(x) + 1}"], not ok
            return pre + f' int* q = &{I}; pl("p", (long)*q);', [f"p={elem(x)}"], not ok
        if k in ("slice", "sliceset"):
            if k == "slice": _, form, n, t, f, a, b = p
            else: (_, n, t, f, a, b), form = p, "array"
            r = slicing(f, n, a, b)
            pre = f"{t} i = {rt(t, a)}; {t} j = {rt(t, b)}; "
            if form == "string":
                pre += f'String a = "{"abcdefgh"[:n]}"; '
            else:
                pre += arr(n) + (" int[] sl = &a;" if form == "slice" else f" int[] sl = ((int*)&a)[:(usz)idl({n})];" if form == "dyn" else "")
            A = {"array": "a", "slice": "sl", "dyn": "sl", "string": "a"}[form]
            if k == "sliceset":
                el = [elem(x) for x in range(n)]
                if r:
                    for x in range(r[0], r[0] + r[1]): el[x] = 4
                return pre + f" {A}[{stext(f, 'i', 'j')}] = 4; long z = 0; foreach (q, x : a) z = z * 3 + (long)x * (long)(q + 1);" + ' pl("p", z);', ["p=" + str(fold(el))], r is None
            ty = "String" if form == "string" else "int[]"
            el = [(ord("abcdefgh"[x]) if form == "string" else elem(x)) for x in range(r[0], r[0] + r[1])] if r else []
            return pre + f" {ty} c = {A}[{stext(f, 'i', 'j')}]; pl(\"l\", (long)c.len); long z = 0; foreach (q, x : c) z = z * 3 + (long)x * (long)(q + 1); pl(\"p\", z);", [f"l={len(el)}", f"p={fold(el)}"], r is None
        if k == "copy":
            _, n, a, b = p
            el = [elem(x) for x in range(n)]
            new = [77] * a + el[a:] if a == b else el
            return f"usz i = (usz)idl({a}); usz j = (usz)idl({b}); " + arr(n) + f" int[{n}] b = {{ {', '.join(['77'] * n)} }}; a[:i] = b[:j]; long z = 0; foreach (q, x : a) z = z * 3 + (long)x * (long)(q + 1); pl(\"p\", z);", [f"p={fold(new)}"], a != b
        if k == "div":
            _, t, op, a, b, comp = p
            r = None
            if b:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if op == "/" else a - q * b
            e = f"x {op}= y;" if comp else f"x = x {op} y;"
            return f"{t} x = {rt(t, a)}; {t} y = {rt(t, b)}; {e} pw(\"p\", (uint128)x);", ["p=" + pf.u128(r or 0)], b == 0
        if k == "shift":
            _, t, op, a, u, n, comp = p
            bits, sg = ALL[t]
            # Small operands are promoted to int unless this is a compound assignment.
            ok = 0 <= n < (bits if comp else max(bits, 32))
            r = 0
            if ok:
                r = a << n if op == "<<" else a >> n
                r &= (1 << bits) - 1
                if sg and r >> bits - 1: r -= 1 << bits
            e = f"x {op}= n;" if comp else f"x = x {op} n;"
            return f"{t} x = {rt(t, a)}; {u} n = {rt(u, n)}; {e} pw(\"p\", (uint128)x);", ["p=" + pf.u128(r)], not ok
        if k == "null":
            _, how, v = p
            if how == "self":
                return f"Pt z = {{ 1, 2, 3 }}; Pt* q = nullp(idl({v}), &z); pl(\"p\", (long)q.plain());", ["p=1"], not v and "any"
            if how == "notnull":
                return f'int z = 6; int* q = nully(idl({v}), &z); pl("p", (long)nn(q));', ["p=6"], not v and "any"
            return f"int z = 6; int* q = nully(idl({v}), &z); " + ('pl("p", (long)*q);' if how == "read" else '*q = 8; pl("p", (long)z);'), ["p=6" if how == "read" else "p=8"], not v
        if k == "enum":
            _, e, t, v, how = p
            n = {"Enu": 5, "Fnu": 3}[e]
            x = f"{e}.from_ordinal(i)" if how == "ordinal" else f"({e})i"
            return f'{t} i = {rt(t, v)}; {e} e = {x}; pl("p", (long)e.ordinal);', [f"p={v}"], not 0 <= v < n
        if k == "unwrap":
            return f'int v = maybe(idl({p[1]}))!!; pl("p", (long)v);', [f"p={p[1] * 2}"], p[1] < 2
        if k == "assert":
            m = ', "too big"' if p[2] else ""
            return f'long v = idl({p[1]}); assert(v < 4{m}); pl("p", v);', [f"p={p[1]}"], p[1] >= 4
        if k == "contract":
            _, f, a, b = p
            A = f"(int)idl({a})"
            if f == "req": return f'pl("p", (long)req({A}, (int)idl({b})));', [f"p={a * 10 + b}"], (a < 0 or a == 3 or b >= 10) and "any"
            if f == "ens": return f'pl("p", (long)ens({A}));', [f"p={a * 5}"], (a == 1 or a * 5 >= 50) and "any"
            if f == "both": return f'pl("p", (long)both({A}));', [f"p={a + 1}"], (a <= 0 or a >= 4 or a == 2) and "any"
            if f == "mreq": return f'int v = {A}; pl("p", (long)mreq(v));', [f"p={a + 1}"], a >= 6 and "any"
            return f'Pt z = {{ {A}, 0, 0 }}; pl("p", (long)z.get());', [f"p={a}"], a <= 0 and "any"
        if k in ("vecdiv", "vecshift"):
            _, t, op, a, b = p
            n, bits = len(a), INTS[t][0]
            bad = any(x == 0 for x in b) if k == "vecdiv" else any(not 0 <= x < bits for x in b)
            r = [] if bad else [(x // y if op == "/" else x % y if op == "%" else x << y if op == "<<" else x >> y) & (1 << bits) - 1 for x, y in zip(a, b)]
            return f"{t}[<{n}>] x = {{ {', '.join(rt(t, q) for q in a)} }}; {t}[<{n}>] y = {{ {', '.join(rt(t, q) for q in b)} }}; {t}[<{n}>] z = x {op} y; " + " ".join(f'pw("p", (uint128)z[{q}]);' for q in range(n)), ["p=" + pf.u128(x - (1 << bits) if INTS[t][1] and x >> bits - 1 else x) for x in r], bad
        if k == "loop":
            _, form, n, t, st, cnt, step = p
            pre = arr(n) + (" int[] a2 = &a;" if form == "slice" else f" int[] a2 = ((int*)&a)[:(usz)idl({n})];" if form == "dyn" else "")
            A = "a" if form == "array" else "a2"
            lines, bad = [], False
            v = st
            b = {"int": 32, "usz": 64, "char": 8}[t]
            for q in range(cnt):
                vv = v if t == "int" else v & (1 << b) - 1
                if not 0 <= vv < n:
                    bad = True
                    break
                lines.append(f"p={elem(vv)}")
                v += step
            return pre + f' {t} i = ({t})idl({st}); for (int q = 0; q < {cnt}; q++) {{ pl("p", (long){A}[i]); i {"+" if step > 0 else "-"}= 1; }}', lines, bad and "keep"
        if k == "nest":
            _, r, q, t, v, u, w = p
            rows = ", ".join("{ " + ", ".join(str(x * 10 + y) for y in range(q)) + " }" for x in range(r))
            return f'int[{q}][{r}] a = {{ {rows} }}; {t} i = {rt(t, v)}; {u} j = {rt(u, w)}; pl("p", (long)a[i][j]);', [f"p={v * 10 + w}"], not (0 <= v < r and 0 <= w < q)

    def emit(self, k, c):
        b, W, done = ['pl("base", $$LINE);'], ["base"], False
        D = []
        for i, p in enumerate(c["probes"]):
            text, lines, bad = self.one(i, p)
            w = c["wrap"]
            if w == "if": b.append(f'if (idl({i}) == {i}) {{ {text} }}')
            elif w == "call":
                D.append(f"fn void call{k}_{i}() @noinline {{ {text} }}")
                b.append(f"call{k}_{i}();")
            elif w == "defer": b.append(f'{{ defer say("d{i}"); {text} }}')
            else: b.append(f"{{ {text} }}")
            if not done:
                if bad:
                    if bad == "keep":
                        W += lines
                    W.append(f"panic={i + 1}" if bad != "any" and w != "call" else "panic")
                    done = True
                else:
                    W += lines
                    if w == "defer": W.append(f"d{i}")
        return "\n".join(D), "\n".join(b), W

    def make(self, cs):
        T, m = [self.pre], []
        for k, c in enumerate(cs):
            d, b, w = self.emit(k, c)
            T.append(f"{d}\nfn void m{k}() @noinline {{\n{b}\n}}")
            m.append(f'\tprintf("#{k}\\n"); guard((void*)&m{k});')
        T.append('fn void c3main() @export("c3main")\n{\n' + "\n".join(m) + '\n\tprintf("#end\\n");\n}\n')
        return "\n".join(T)

    def run(self, cases):
        res = [None] * len(cases)
        for lv in sorted({self.level(c) for c in cases}):
            ix = [i for i, c in enumerate(cases) if self.level(c) == lv]
            for i, r in zip(ix, self.go([cases[i] for i in ix], lv)):
                res[i] = r and f"{' '.join(lv)}: {r}"
        return res

    def go(self, cs, lv):
        try:
            with c3.Tmp() as d:
                return self.check(cs, link(d, self.make(cs), CSRC, (*lv, "--panicfn", "t::panicker")))
        except c3.Fail as e:
            if len(cs) == 1:
                return [str(e)]
            h = len(cs) // 2
            return self.go(cs[:h], lv) + self.go(cs[h:], lv)

    def compare(self, c, want, got):
        base = None
        g = []
        for x in got:
            if x.startswith("base="):
                base, x = int(x[5:]), "base"
            elif x.startswith("panic="):
                x = f"panic={int(x[6:]) - base}"
            g.append(x)
        if want and want[-1] == "panic" and len(g) == len(want) and g[-1].startswith("panic="):
            g[-1] = "panic"
        return super().compare(c, want, g)


def fold(el):
    z = 0
    for q, x in enumerate(el):
        z = z * 3 + x * (q + 1)
    return z


class C10(pbt.Check):
    id = "C10"
    rule = "one of the probes violates a check, or there are at least three; distinct by probes and optimisation level"
    assumptions = ["a slice from start to an end before it is a violation, also when it would be empty (as implemented and documented: 'Negative size')"]
    families = [Probes()]


CHECK = C10()
