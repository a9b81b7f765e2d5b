"""C13: switch selects exactly the matching case."""
from vf import pbt, pf

INTS = {"ichar": (8, 1), "char": (8, 0), "short": (16, 1), "ushort": (16, 0), "int": (32, 1), "uint": (32, 0), "long": (64, 1), "ulong": (64, 0), "int128": (128, 1), "uint128": (128, 0)}
LEVELS = [("-O0",), ("-O1",), ("-O3",), ("-O0", "--safe=no", "-g0"), ("-O2", "--safe=no")]
PRE = pf.PRE + """faultdef F0, F1, F2, F3, F4, F5;
fn fault flt(int i) @noinline { fault[6] f = { F0, F1, F2, F3, F4, F5 }; return f[i]; }
struct Ta { int a; }
struct Tb { int a; }
alias Tfn = fn void();
fn typeid tid(int i) @noinline { typeid[9] f = { int.typeid, uint.typeid, Ta.typeid, Tb.typeid, (int[3]).typeid, (int[4]).typeid, (int*).typeid, String.typeid, Tfn.typeid }; return f[i]; }
String[9] strs = { "", "a", "A", "aa", "ab", "abc", "a\\0b", "a\\0c", "\\xff" };
fn String str(int i, char[] buf) @noinline { String s = strs[i]; char[] z = (char[])s; buf[:z.len] = z[..]; return (String)buf[:s.len]; }
fn bool bl(int i) @noinline { return gzero == i; }
"""
TIDS = ["int", "uint", "Ta", "Tb", "int[3]", "int[4]", "int*", "String", "Tfn"]
STRS = ['""', '"a"', '"A"', '"aa"', '"ab"', '"abc"', '"a\\0b"', '"a\\0c"', '"\\xff"']


def lim(t):
    b, s = INTS[t]
    return (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)


class Switch(pf.PF):
    name = "switch"
    quick, thorough = 7000, 120000
    levels = LEVELS
    pre = PRE
    batch = 30

    def gen(self, s):
        kind = s.weighted([(9, "int"), (4, "enum"), (2, "str"), (2, "fault"), (2, "type"), (1, "bool"), (1, "float"), (1, "none")])
        c = {"kind": kind, "t": s.choice(sorted(INTS)) if kind == "int" else kind, "jump": 0, "home": s.choice(["fn", "fn", "macro", "nested", "label"])}
        if kind == "int":
            lo, hi = lim(c["t"])
            mode = s.choice(["small", "small", "edge", "wide", "negative"])
            base = {"small": s.int(0, 10), "edge": s.choice([lo, hi - 20]), "wide": 0, "negative": -s.int(0, 20) if lo < 0 else 3}[mode]
            pt = (lambda: s.inum(*INTS[c["t"]])) if mode == "wide" else (lambda: max(lo, min(hi, base + s.int(0, 24))))
            c["distinct"] = s.bool(1, 6)
        elif kind == "enum":
            c["n"] = s.int(1, 12)
            c["under"] = s.choice(["", " : char", " : ushort", " : long"])
            lo, hi = 0, c["n"] - 1
            pt = lambda: s.int(0, c["n"] - 1)
        else:
            lo, hi = 0, {"str": 8, "fault": 5, "type": 8, "bool": 1, "float": 6, "none": 7}[kind]
            pt = lambda: s.int(lo, hi)
        ranges = kind in ("int", "enum")
        variable = kind != "type" and s.bool(1, 6)
        cases, used = [], []
        for _ in range(s.int(1, 9)):
            v = pt()
            rng = ranges and s.bool(1, 3)
            w = min(hi, v + (s.choice([0, 1, 2, 5, 255, 256, 257, 300]) if kind == "int" else s.int(0, 4))) if rng else v
            var = variable and not rng and s.bool(1, 2)
            if not var:
                if any(a <= w and v <= b for a, b in used): continue
                used.append((v, w))
            cases.append(["case", v, w, int(rng), int(var), None])
        if kind == "none":
            cases = [["case", pt(), 0, 0, 1, None] for _ in cases]
        default = kind == "enum" and not self.covers(c, cases) or s.bool(2, 3)
        if default or not cases: cases.insert(s.int(0, len(cases)), ["default", 0, 0, 0, 0, None])
        nn = len(cases)
        consts = [x for x in cases if x[0] == "case" and not x[4]]
        jumpable = kind in ("int", "enum") and not any(x[4] for x in cases)
        if jumpable and consts and s.bool(1, 3):
            if kind == "enum" or max(x[2] for x in consts) - min(x[1] for x in consts) < 500: c["jump"] = 1
        for i, x in enumerate(cases):
            k = s.draw(11)
            if k <= 1: x[5] = None
            elif k <= 6 or kind == "none" and k >= 8: x[5] = ["end"]
            elif k == 7: x[5] = [s.choice(["break", "return", "cont"])]
            elif k == 8 and i + 1 < nn: x[5] = ["next"]
            elif k == 9 and consts:
                q = s.choice(consts)
                x[5] = ["to", s.choice([q[1], q[2]])]
            elif k == 10: x[5] = ["rt", pt()]
            elif any(y[0] == "default" for y in cases): x[5] = ["default"]
            else: x[5] = ["end"]
            if x[5] and s.bool(1, 4): x[5] = ["defer"] + x[5]
        c["cases"] = cases
        vs = set()
        for x in cases: vs |= {x[1], x[2], x[1] - 1, x[2] + 1, x[1] + 1}
        vs |= {pt(), pt(), lo, hi}
        if kind == "int": vs |= {x ^ 256 for x in list(vs)[:2]} | {x + (1 << 32) for x in list(vs)[:1]} | {x - (1 << 63) for x in list(vs)[:1]}
        c["vals"] = sorted(v for v in vs if lo <= v <= hi)[:40]
        c["level"] = s.draw(len(LEVELS) - 1)
        return c

    @staticmethod
    def covers(c, cases):
        return {i for x in cases if x[0] == "case" and not x[4] for i in range(x[1], x[2] + 1)} >= set(range(c["n"]))

    def valid(self, c):
        cases = c["cases"]
        if not cases or sum(x[0] == "default" for x in cases) > 1: return False
        if c["kind"] == "enum" and not any(x[0] == "default" for x in cases) and not self.covers(c, cases): return False
        used = []
        for i, x in enumerate(cases):
            if x[2] < x[1] or c["kind"] == "enum" and x[2] >= c["n"]: return False
            if x[0] == "case" and not x[4]:
                if any(a <= x[2] and x[1] <= b for a, b in used): return False
                used.append((x[1], x[2]))
            b = [y for y in x[5] or [None] if y != "defer"]
            if not b or x[5] and x[5][0] not in ("defer", "end", "break", "return", "cont", "next", "to", "rt", "default"): return False
            if b[0] == "next" and i + 1 == len(cases): return False
        for x in cases:
            b = [y for y in x[5] or [None] if y != "defer"]
            if b[0] == "to" and not any(p <= b[1] <= q for p, q in used): return False
            if b[0] == "default" and not any(y[0] == "default" for y in cases): return False
        return bool(c["vals"])

    def labels(self, c):
        l = {c["kind"], self.level(c)[0], c["home"]} | ({"jump"} if c["jump"] else set())
        for x in c["cases"]:
            if x[3]: l.add("range")
            if x[4]: l.add("variable")
            if x[5] is None: l.add("fallthrough")
            else: l |= {y for y in x[5] if isinstance(y, str)}
        return l

    def nontrivial(self, c):
        return len(c["cases"]) >= 3 and len({x for v in c["vals"] for x in self.model(c, v)[:1]}) >= 3

    # model
    def model(self, c, v):
        out, steps, cs = [], 0, c["cases"]

        def sel(v):
            for i, x in enumerate(cs):
                if x[0] == "default": continue
                if c["kind"] == "none":
                    if v >= x[1]: return i
                elif x[1] <= v <= x[2]: return i
            return next((i for i, x in enumerate(cs) if x[0] == "default"), None)
        i = sel(v)
        tail = True
        while i is not None:
            b = cs[i][5]
            if b is None:
                i = i + 1 if i + 1 < len(cs) else None
                continue
            out.append(f"c{i}")
            d = b[0] == "defer"
            if d: b = b[1:]
            k = b[0]
            steps += 1
            n = None
            if k == "return": tail = False
            if k in ("next", "to", "rt", "default") and steps < 6:
                if k == "next": n = i + 1
                elif k == "to": n = sel(b[1])
                elif k == "rt": n = sel(b[1])
                else: n = next(j for j, x in enumerate(cs) if x[0] == "default")
            elif k not in ("break", "return", "cont"):
                out.append(f"e{i}")
            if d: out.append(f"d{i}")
            i = n
        return out + (["tail"] if tail else [])

    def val(self, c, v, rt=False):
        k = c["kind"]
        if k == "int" and c.get("distinct") and rt: return "(Di@)" + self.val({**c, "distinct": False}, v, True)
        if k == "int":
            t = c["t"]
            m = v & (1 << 128) - 1
            if rt: return f"(({t})idw(((uint128)0x{m >> 64:x}UL << 64) | (uint128)0x{m & (1 << 64) - 1:x}UL))" if "128" in t else f"(({t})idl((long)0x{m & (1 << 64) - 1:x}UL))"
            if "128" in t: return f"({t})(((uint128)0x{m >> 64:x}UL << 64) | (uint128)0x{m & (1 << 64) - 1:x}UL)"
            if v == -(1 << 63): return "long.min"
            return f"({t})({v}{'UL' if v >= 1 << 63 else 'L' if abs(v) >= 1 << 31 else ''})" if t not in ("int", "long", "ichar", "short") or abs(v) >= 1 << 31 else str(v)
        if k == "enum": return f"En@.from_ordinal((usz)idl({v}))" if rt else f"En@.V{v}"
        if k == "str": return f"str((int)idl({v}), &{'bufc' if rt == 2 else 'buf'})" if rt else STRS[v]
        if k == "fault": return f"flt({v})" if rt else f"F{v}"
        if k == "type": return f"tid({v})" if rt else f"{TIDS[v]}.typeid"
        if k == "bool": return f"bl({1 - v})" if rt else ("true" if v else "false")
        if k == "float": return f"idd({v}.5)" if rt else f"{v}.5"
        return str(v)

    def emit(self, k, c):
        f = lambda *a, **b: self.val(c, *a, **b).replace("@", str(k))
        T = {"int": c["t"], "enum": f"En{k}", "str": "String", "fault": "fault", "type": "typeid", "bool": "bool", "float": "double", "none": "int"}[c["kind"]]
        D = ""
        if c["kind"] == "enum": D += f"enum En{k}{c['under']} {{ " + ", ".join(f"V{i}" for i in range(c["n"])) + " }\n"
        if c["kind"] == "int" and c.get("distinct"):
            D += f"typedef Di{k} = inline {T};\n"
        lab = " SW:" if c["home"] == "label" else ""
        L = [f"switch{lab}" + (" (x)" if c["kind"] != "none" else "") + (" @jump" if c["jump"] else ""), "{"]
        tgt = "SW: " if lab else ""
        for i, x in enumerate(c["cases"]):
            if x[0] == "default": h = "default:"
            elif c["kind"] == "none": h = f"case x >= {x[1]}:"
            else:
                t = (lambda v: TIDS[v]) if c["kind"] == "type" and i % 2 else (lambda v: f(v, rt=2 if x[4] else 0))
                h = f"case {t(x[1])}" + (f"..{t(x[2])}" if x[3] else "") + ":"
            b = x[5]
            if b is None: L.append(h); continue
            q = []
            if b[0] == "defer":
                q.append(f'defer say("d{i}");')
                b = b[1:]
            q.append(f'say("c{i}");')
            steps = "steps++ < 5"
            kk = b[0]
            if kk == "break": q.append("steps++; break" + (" SW" if lab else "") + ";")
            elif kk == "return": q.append("steps++; return;")
            elif kk == "cont": q.append("steps++; continue OUT;")
            elif kk == "end": q.append(f'steps++; say("e{i}");')
            else:
                d = {"next": "", "to": f(b[1]) if kk == "to" else "", "rt": f(b[1], rt=True) if kk == "rt" else "", "default": "default"}[kk]
                if kk == "next": d = ""
                q.append(f'if ({steps}) nextcase{" " + tgt + d if d else ""}; say("e{i}");')
            L.append(h)
            L.append("\t{ " + " ".join(q) + " }" if i % 2 else "\t" + " ".join(q))
        L.append("}")
        sw = "\n".join("\t\t" + l for l in L)
        pre = "char[8] buf, bufc;\n\t" if c["kind"] == "str" else ""
        if c["home"] == "nested":
            sw = '\t\tswitch ((int)idl(3)) { case 2: say("bad"); case 3:\n' + sw + '\n\t\tdefault: say("bad"); }'
        body = f"\tint steps;\n\t{pre}do OUT:\n\t{{\n{sw}\n\t}} while (false);\n\tsay(\"tail\");\n"
        if "label" == c["home"] and False: pass
        TP = f"Di{k}" if c["kind"] == "int" and c.get("distinct") else T
        if c["home"] == "macro":
            D += f"macro void sw{k}m({TP} x)\n{{\n{body}}}\nfn void sw{k}({TP} x) @noinline {{ sw{k}m(x); }}"
        else: D += f"fn void sw{k}({TP} x) @noinline\n{{\n{body}}}"
        S, W = [], []
        if c["kind"] == "str": S.append("\tchar[8] buf;")
        for j, v in enumerate(c["vals"]):
            a = f(v, rt=True) if c["kind"] != "none" else f"(int)idl({v})"
            S.append(f'\tsay("v{j}"); sw{k}({"(" + TP + ")" if TP != T else ""}{a});')
            W += [f"v{j}"] + self.model(c, v)
        return D, "\n".join(S), W


class C13(pbt.Check):
    id = "C13"
    rule = "the switch has at least 3 cases and the switched values reach at least 3 different first bodies"
    assumptions = ["constant cases do not overlap (overlaps must be rejected, which C17 checks); enum switches are complete or have a default"]
    families = [Switch()]


CHECK = C13()
