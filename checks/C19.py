"""C19: any values and interfaces dispatch on the dynamic type."""
from vf import pbt, pf

PRE = pf.PRE + """faultdef BAD;
struct Big { long a; long b; long c; }
struct Pq { int a; float b; }
fn any same(any a) @noinline => a;
fn void show(any a)
{
	switch (a.type)
	{
		case int: pl("int", *(int*)a);
		case char: pl("char", *(char*)a);
		case double: pd("double", *(double*)a);
		case Big: pl("Big", ((Big*)a).a + ((Big*)a).c);
		case int[3]: pl("arr", (*(int[3]*)a)[2]);
		case String: ps("str", *(String*)a);
		case char[]: ps("sl", *(char[]*)a);
		case int*: pl("ptr", **(int**)a);
		case bool: pl("bool", *(bool*)a ? 1 : 0);
		case int[<2>]: pl("vec", (*(int[<2>]*)a)[1]);
		case fault: pl("fault", (*(fault*)a == BAD) ? 1 : 0);
		case typeid: pl("typeid", (*(typeid*)a == Big.typeid) ? 1 : 0);
		case void: say("void");
		default: say("other");
	}
}
fn void va(args...) @noinline { pl("n", args.len); foreach (a : args) show(a); }
"""
SIG = {0: "fn int {}m0({}int x)", 1: "fn long {}m1({}long x, long y)", 2: "fn Big {}m2({}Big b)", 3: "fn void {}m3({}int* p)", 4: "fn int? {}m4({}int x)", 5: "fn double {}m5({}double d, Pq p)"}
BODY = {0: "V += x; G return (int)(V % 1000) + ID * 1000;", 1: "V -= x; G return V * 3 + y + ID;", 2: "b.a += V; b.b = ID; b.c -= V; return b;", 3: "*p += (int)(V % 100) + ID;", 4: "if (x + V < 0) return BAD?; return (int)((x + V) % 1000) + ID;", 5: "return d + (double)p.a + (double)(p.b * ID) + (double)V;"}
VALS = {"int": ["(int)idl({v})", "int={v}"], "char": ["(char)idl({c})", "char={c}"], "double": ["(double)idl({v})", None], "Big": ["(Big){{ {v}, 1, 2 }}", "Big={v2}"], "arr": ["(int[3]){{ 1, 2, {v} }}", "arr={v}"],
        "str": ['(String)"ab{c}"', "str=ab{c}"], "bool": ["idl({c}) > 9", "bool={b}"], "vec": ["(int[<2>]){{ 1, {v} }}", "vec={v}"], "fault": ["BAD", "fault=1"], "typeid": ["Big.typeid", "typeid=1"], "sl": ['((char[])"xy{c}")', "sl=xy{c}"]}
KINDS = ["struct", "union", "dist", "bits"]


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def rem(a, b): return a - b * tdiv(a, b)


class Dyn(pf.PF):
    name = "dispatch"
    quick, thorough = 6000, 120000
    levels = [("-O0",), ("-O1",), ("-O2",), ("-O0", "--safe=no", "-g0"), ("-O3",)]
    pre = PRE
    batch = 20

    def gen(self, s):
        ifs = []
        for i in range(s.int(1, 4)):
            par = [j for j in range(i) if s.bool(1, 3)]
            have = set(x for j in par for x in self.closure(ifs, j))
            ms = [m for m in range(6) if s.bool(1, 3)]
            ifs.append({"par": par, "ms": [[m, int(s.bool(1, 4))] for m in ms if m not in have]})
        types = []
        for i in range(s.int(1, 4)):
            im = [j for j in range(len(ifs)) if s.bool()]
            need = {}
            for j in im:
                for m, o in self.closure(ifs, j).items(): need[m] = min(need.get(m, 1), o)
            types.append({"k": s.choice(KINDS), "im": im, "ms": sorted(m for m, o in need.items() if not o or s.bool())})
        insts = [[s.draw(len(types) - 1), s.int(-50, 50)] for _ in range(s.int(1, 4))]
        slots = [s.draw(len(ifs) - 1) for _ in range(s.int(1, 4))]
        ops = []
        for _ in range(s.int(3, 16)):
            k = s.choice(["set", "set", "set", "call", "call", "call", "call", "has", "toany", "fromany", "setany", "type", "slot", "direct", "loop", "va", "ptr", "null", "pass", "eq"])
            ops.append([k, s.draw(7), s.draw(7), s.int(-60, 60), s.draw(5)])
        return {"ifs": ifs, "types": types, "insts": insts, "slots": slots, "ops": ops, "vals": [[s.choice(sorted(VALS)), s.int(-9, 99)] for _ in range(3)], "level": s.draw(len(self.levels) - 1)}

    def closure(self, ifs, j):
        r = dict(map(tuple, ifs[j]["ms"]))
        for p in ifs[j]["par"]:
            for m, o in self.closure(ifs, p).items(): r[m] = min(r.get(m, 1), o)
        return r

    def anc(self, ifs, j):
        r = {j}
        for p in ifs[j]["par"]: r |= self.anc(ifs, p)
        return r

    def valid(self, c):
        try:
            for t in c["types"]:
                for j in t["im"]:
                    if any(not o and m not in t["ms"] for m, o in self.closure(c["ifs"], j).items()): return False
                if any(all(m not in self.closure(c["ifs"], j) for j in t["im"]) for m in t["ms"]): return False
            for i, f in enumerate(c["ifs"]):
                if any(p >= i for p in f["par"]): return False
                if any(m in self.closure(c["ifs"], p) for p in f["par"] for m, o in f["ms"]): return False
            return bool(c["insts"] and c["slots"] and c["types"]) and all(t < len(c["types"]) for t, v in c["insts"]) and all(x < len(c["ifs"]) for x in c["slots"]) and bool(self.emit(0, c))
        except Exception: return False

    def nontrivial(self, c): return len(c["types"]) > 1 and sum(o[0] in ("call", "loop", "pass") for o in c["ops"]) > 1
    def labels(self, c):
        for o in c["ops"]: yield o[0]
        for t in c["types"]: yield t["k"]

    def emit(self, k, c):
        I, T = c["ifs"], c["types"]
        D = []
        for i, f in enumerate(I):
            par = " : " + ", ".join(f"If{k}_{p}" for p in f["par"]) if f["par"] else ""
            D.append(f"interface If{k}_{i}{par}\n{{\n" + "".join(f"\t{SIG[m].format('', '')}{' @optional' if o else ''};\n" for m, o in f["ms"]) + "}")
        for i, t in enumerate(T):
            im = "(" + ", ".join(f"If{k}_{j}" for j in t["im"]) + ")" if t["im"] else ""
            n = f"Ty{k}_{i}"
            D.append({"struct": f"struct {n} {im} {{ char c; long v; }}", "union": f"union {n} {im} {{ long v; char[9] c; }}", "dist": f"typedef {n} {im} = long;", "bits": f"bitstruct {n} {im} : uint128 {{ long v : 13..76; }}"}[t["k"]])
            for m in t["ms"]:
                b = BODY[m].replace("ID", str(i))
                if t["k"] == "dist": b = b.replace("V += x; G", "long w = (long)*self + x; *self = ({})w;".format(n)).replace("V -= x; G", "long w = (long)*self - x; *self = ({})w;".format(n)).replace("V", "((long)*self)")
                else: b = b.replace(" G", "").replace("V", "self.v")
                D.append(SIG[m].format(n + ".", "&self, ") + f" @dynamic {{ {b} }}")
        ty = lambda i: f"Ty{k}_{c['insts'][i][0]}"
        b, w = [], []
        val = {}
        for i, (t, v) in enumerate(c["insts"]):
            b.append(f"\t{ty(i)} x{i};" + (f" x{i} = ({ty(i)})idl({v});" if T[t]["k"] == "dist" else f" x{i}.v = idl({v});"))
            val[i] = v
        for i, f in enumerate(c["slots"]): b.append(f"\tIf{k}_{f} s{i};")
        b.append("\tany a0; any a1;")
        S, A = [None] * len(c["slots"]), [None, None]
        ns, ni = len(c["slots"]), len(c["insts"])
        uid = [0]

        def call(recv, m, i, x, guard=False):
            """Calls method m of recv, which is instance i."""
            t = c["insts"][i][0]
            v = val[i]
            uid[0] += 1
            u = uid[0]
            if m == 0:
                val[i] = v = v + x
                w.append(f"m0={rem(v, 1000) + t * 1000}")
                return f'pl("m0", {recv}.m0({x}));'
            if m == 1:
                val[i] = v = v - x
                w.append(f"m1={v * 3 + x + 1 + t}")
                return f'pl("m1", {recv}.m1({x}, {x + 1}));'
            if m == 2:
                w.append(f"m2={(x + v) * 10000 + t * 100 + 7 - v}")
                return f'Big g{u} = {recv}.m2({{ {x}, 2, 7 }}); pl("m2", g{u}.a * 10000 + g{u}.b * 100 + g{u}.c);'
            if m == 3:
                w.append(f"m3={x + rem(v, 100) + t}")
                return f'int p{u} = {x}; {recv}.m3(&p{u}); pl("m3", p{u});'
            if m == 4:
                w.append(f"m4={-7777 if x + v < 0 else rem(x + v, 1000) + t}")
                return f'pl("m4", {recv}.m4({x}) ?? -7777);'
            w.append("m5=" + pd(x + 3 + 0.5 * t + v))
            return f'pd("m5", {recv}.m5({x}, {{ 3, 0.5 }}));'
        for j, (op, p, q, x, r) in enumerate(c["ops"]):
            si, ii, ai = p % ns, q % ni, q % 2
            f = c["slots"][si]
            mm = sorted(self.closure(I, f))
            t = c["insts"][ii][0]
            if op == "set":
                ok = f in T[t]["im"]
                b.append(f"\ts{si} = {'' if ok else f'(If{k}_{f})'}&x{ii};"); S[si] = ii
            elif op == "call" and mm:
                m = mm[r % len(mm)]
                if S[si] is None: continue
                if m in T[c["insts"][S[si]][0]]["ms"]: b.append("\t" + call(f"s{si}", m, S[si], x))
                else: b.append(f'\tpl("none", &s{si}.m{m} ? 1 : 0);'); w.append("none=0")
            elif op == "pass" and mm:
                m = mm[r % len(mm)]
                if S[si] is None or m not in T[c["insts"][S[si]][0]]["ms"]: continue
                D.append(f"alias Fn{k}_{j} = fn void(If{k}_{f});")
                b.append("\t" + f"Fn{k}_{j} l{j} = fn void(If{k}_{f} z) {{ {call('z', m, S[si], x)} }}; l{j}(s{si});")
            elif op == "has" and mm and S[si] is not None:
                m = mm[r % len(mm)]
                b.append(f'\tpl("has", &s{si}.m{m} ? 1 : 0);'); w.append(f"has={int(m in T[c['insts'][S[si]][0]]['ms'])}")
            elif op == "toany": b.append(f"\ta{ai} = s{si};"); A[ai] = S[si]
            elif op == "fromany":
                if A[ai] is None: b.append(f"\ts{si} = null;")
                else: b.append(f"\ts{si} = (If{k}_{f}){['', 'same'][r & 1]}(a{ai});")
                S[si] = A[ai]
            elif op == "setany": b.append(f"\ta{ai} = &x{ii};"); A[ai] = ii
            elif op == "type":
                for e in range(len(T)):
                    b.append(f'\tpl("ty", (a{ai}.type == Ty{k}_{e}.typeid) ? 1 : 0);')
                    w.append(f"ty={int(A[ai] is not None and c['insts'][A[ai]][0] == e)}")
            elif op == "slot":
                o = q % ns
                g = c["slots"][o]
                b.append(f"\ts{si} = {'' if f == g or f in I[g]['par'] else f'(If{k}_{f})'}s{o};"); S[si] = S[o]
            elif op == "direct":
                ms = T[t]["ms"]
                if ms: b.append("\t" + call(f"x{ii}", ms[r % len(ms)], ii, x))
            elif op == "loop" and mm:
                m = mm[r % len(mm)]
                es = [(p + z) % ni for z in range(4)]
                b.append(f"\tIf{k}_{f}[4] r{j} = {{ " + ", ".join(f"(If{k}_{f})&x{e}" for e in es) + " };")
                if m == 3: b.append(f"\tint n{j} = {x};")
                body = {0: f"v.m0({x})", 1: f"v.m1({x}, 2)", 2: f"v.m2({{ {x}, 2, 7 }}).a", 3: f"(long)n{j}", 4: f"v.m4({x}) ?? -7777", 5: f"(long)v.m5({x}, {{ 3, 0 }})"}[m]
                b.append(f'\tforeach (v : r{j}) {{ if (!&v.m{m}) {{ say("-"); continue; }} ' + (f"v.m3(&n{j}); " if m == 3 else "") + f'pl("r", {body}); }}')
                acc = x
                for e in es:
                    te = c["insts"][e][0]
                    if m not in T[te]["ms"]: w.append("-"); continue
                    if m == 0: val[e] += x
                    if m == 1: val[e] -= x
                    v = val[e]
                    acc += rem(v, 100) + te
                    w.append("r=%d" % {0: rem(v, 1000) + te * 1000, 1: v * 3 + 2 + te, 2: x + v, 3: acc, 4: -7777 if x + v < 0 else rem(x + v, 1000) + te, 5: x + 3 + v}[m])
            elif op == "va":
                vs = c["vals"][:r % 4]
                b.append("\tva(" + ", ".join(VALS[z][0].format(v=y, c=y % 90 + 10) for z, y in vs) + ");")
                w.append(f"n={len(vs)}")
                for z, y in vs: w.append("double=" + pd(y) if z == "double" else VALS[z][1].format(v=y, c=y % 90 + 10, v2=y + 2, b=1))
            elif op == "ptr":
                b.append(f'\tpl("ptr", ((void*)a{ai}.ptr == (void*)&x{ii}) ? 1 : 0);')
                w.append(f"ptr={int(A[ai] == ii)}")
            elif op == "null":
                b.append(f'\tpl("null", s{si} ? 1 : 0); pl("nulla", a{ai} == null ? 1 : 0);')
                w.append(f"null={int(S[si] is not None)}"); w.append(f"nulla={int(A[ai] is None)}")
            elif op == "eq" and None not in A:   # a null and a zeroed any are both null but carry different types
                b.append(f'\tpl("eq", a0 == a1 ? 1 : 0);')
                w.append(f"eq={int(A[0] == A[1])}")
        return "\n".join(D), "\n".join(b), w


def pd(v):
    v = float(v)
    if v == 0: return "0x0p+0"
    import math
    m, e = math.frexp(abs(v))
    h = format(int(m * 2 ** 53), "014x")
    n = int(m * 2 ** 53) - (1 << 52)
    d = format(n, "013x").rstrip("0")
    return ("-" if v < 0 else "") + "0x1" + ("." + d if d else "") + f"p{e - 1:+d}"


class Inherit(pf.PF):
    """Types with inline parents: type switches accept a subtype, methods are found on the nearest ancestor."""
    name = "inherit"
    quick, thorough = 4000, 80000
    levels = [("-O0",), ("-O1",), ("-O2",), ("-O0", "--safe=no", "-g0"), ("-O3",)]
    pre = PRE
    batch = 20

    def gen(self, s):
        T = []
        for i in range(s.int(2, 6)):
            par = s.draw(i - 1) if i and s.bool(3, 4) else -1
            T.append({"k": s.choice(["struct", "typedef"]), "par": par, "n": int(par < 0 or s.bool(1, 3)), "d": 1})
        insts = [[s.draw(len(T) - 1), s.int(-50, 50)] for _ in range(s.int(1, 4))]
        ops = [[s.choice(["switch", "switch", "switch", "stat", "dyn", "up", "if", "swtid", "parent"]), s.draw(7), s.int(-60, 60), [s.draw(len(T) - 1) for _ in range(s.int(1, 5))]] for _ in range(s.int(2, 10))]
        return {"types": T, "insts": insts, "ops": ops, "level": s.draw(len(self.levels) - 1)}

    def valid(self, c):
        try: return bool(c["insts"]) and all(t["par"] < i for i, t in enumerate(c["types"])) and all(t["n"] or t["par"] >= 0 for t in c["types"]) and bool(self.emit(0, c))
        except Exception: return False

    def nontrivial(self, c): return any(t["par"] >= 0 for t in c["types"]) and len(c["ops"]) > 2
    def labels(self, c):
        for o in c["ops"]: yield o[0]

    def emit(self, k, c):
        T = c["types"]
        N = lambda i: f"Ti{k}_{i}"
        chain = lambda i: [i] + (chain(T[i]["par"]) if T[i]["par"] >= 0 else [])
        D = [f"interface Ii{k} {{ fn long dyn(long x); }}"]
        acc = lambda i: "" if T[i]["k"] == "typedef" and T[i]["par"] < 0 else ""
        def get(i, e):
            """The long inside the value e of type i."""
            if T[i]["par"] < 0: return f"(long){e}" if T[i]["k"] == "typedef" else f"{e}.v"
            if T[i]["k"] == "typedef": return get(T[i]["par"], f"(({N(T[i]['par'])}){e})")
            return get(T[i]["par"], f"{e}.p")
        for i, t in enumerate(T):
            if t["k"] == "typedef": D.append(f"typedef {N(i)} (Ii{k}) = " + ("long;" if t["par"] < 0 else f"inline {N(t['par'])};"))
            else: D.append(f"struct {N(i)} (Ii{k}) {{ " + ("char z; long v; }" if t["par"] < 0 else f"inline {N(t['par'])} p; int extra; }}"))
            if t["n"]: D.append(f"fn long {N(i)}.stat(&self, long x) {{ return {get(i, '(*self)')} * 10 + {i} + x; }}")
            if t["d"]: D.append(f"fn long {N(i)}.dyn(&self, long x) @dynamic {{ return {get(i, '(*self)')} * 100 + {i} * 10 + x; }}")
        b, w = [], []
        for n, (t, v) in enumerate(c["insts"]):
            b.append(f"\t{N(t)} x{n};")
            path, u, e = "", t, f"x{n}"
            root = chain(t)[-1]
            b.append(f"\t*({'long' if T[root]['k'] == 'typedef' else N(root)}*)&x{n}{'' if T[root]['k'] == 'typedef' else ''} = " + (f"idl({v});" if T[root]["k"] == "typedef" else f"{{ 1, idl({v}) }};"))
        for j, (op, q, x, L) in enumerate(c["ops"]):
            n = q % len(c["insts"])
            t, v = c["insts"][n]
            L = [y for z, y in enumerate(L) if y not in L[:z]]
            anc = chain(t)
            if op in ("switch", "swtid"):
                b.append(f"\tany a{j} = &x{n}; typeid t{j} = a{j}.type;\n\tswitch ({'t%d' % j if op == 'swtid' else 'a%d.type' % j})\n\t{{")
                for y in L: b.append(f"\t\tcase {N(y)}: pl(\"case\", {y}); pl(\"v\", {get(y, f'(*({N(y)}*)a{j}.ptr)')});")
                b.append('\t\tdefault: say("none");\n\t}')
                hit = [y for y in L if y in anc]
                if hit: w += [f"case={hit[0]}", f"v={v}"]
                else: w.append("none")
            elif op == "stat":
                m = next(y for y in anc if T[y]["n"])
                b.append(f'\tpl("stat", x{n}.stat({x}));'); w.append(f"stat={v * 10 + m + x}")
            elif op == "dyn":
                m = next(y for y in anc if T[y]["d"])
                b.append(f'\tIi{k} i{j} = &x{n}; pl("dyn", i{j}.dyn({x}));'); w.append(f"dyn={v * 100 + m * 10 + x}")
            elif op == "up":
                y = anc[(x + 60) % len(anc)]
                b.append(f'\t{N(y)}* u{j} = &x{n}; any z{j} = u{j}; pl("up", (z{j}.type == {N(y)}.typeid) ? 1 : 0); pl("uv", {get(y, f"(*u{j})")}); pl("us", u{j}.stat({x}));')
                m = next(z for z in chain(y) if T[z]["n"])
                w += ["up=1", f"uv={v}", f"us={v * 10 + m + x}"]
            elif op == "if":
                b.append(f'\tany a{j} = &x{n}; pl("is", (a{j}.type == {N(L[0])}.typeid) ? 1 : 0); pl("nil", ((void*)a{j}.ptr == null) ? 1 : 0);')
                w += [f"is={int(t == L[0])}", "nil=0"]
            elif op == "parent":
                b.append(f'\tany a{j} = &x{n}; pl("par", (a{j}.type.parentof == {N(L[0])}.typeid) ? 1 : 0); pl("sz", (a{j}.type.sizeof == {N(t)}.sizeof) ? 1 : 0);')
                w += [f"par={int(T[t]['par'] == L[0])}", "sz=1"]
        return "\n".join(D), "\n".join(b), w


class C19(pbt.Check):
    id = "C19"
    rule = "at least two types and two dynamic calls"
    families = [Dyn(), Inherit()]


CHECK = C19()
