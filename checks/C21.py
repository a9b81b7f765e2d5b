"""C21: reflection describes the declarations it is asked about."""
from vf import pbt, pf

PRE = pf.PRE + """import std::core::types;
fn typeid tid(typeid t) @noinline => t;
fn void ti(char* w, bool b) @noinline { pl(w, b ? 1 : 0); }
"""
INT = {"ichar": (1, 1), "char": (1, 0), "short": (2, 1), "ushort": (2, 0), "int": (4, 1), "uint": (4, 0), "long": (8, 1), "ulong": (8, 0), "int128": (16, 1), "uint128": (16, 0)}
FLT = {"float": 4, "double": 8}
ASSOC = ["int", "char", "String", "bool", "double", "ulong"]
WORDS = ["alpha", "b", "c_3", "dd", "epsilon", "ff", "gamma7", "h", "iota", "jj"]


class Decls(pf.PF):
    name = "decls"
    quick, thorough = 4000, 100000
    levels = [("-O0",), ("-O1",), ("-O0", "--safe=no", "-g0"), ("-O2",)]
    pre, std = PRE, True
    batch = 60

    def gen(self, s):
        D = []
        for i in range(s.int(1, 5)):
            k = s.choice(["enum", "enum", "struct", "struct", "union", "bits", "typedef", "alias", "fn", "iface"])
            d = {"k": k}
            if k == "enum":
                d.update(b=s.choice([x for x in INT if "128" not in x]), n=s.int(1, 9), a=[s.draw(len(ASSOC) - 1) for _ in range(s.draw(3))], v=s.int(0, 999), inl=int(s.bool(1, 4)))
            elif k in ("struct", "union"): d.update(m=[self.ty(s, D, 2) for _ in range(s.int(1, 6))], inl=int(k == "struct" and s.bool(1, 3)), meth=s.draw(2))
            elif k == "bits": d.update(b=s.choice(["char", "ushort", "uint", "ulong", "int"]), w=[s.int(1, 7) for _ in range(s.int(1, 5))])
            elif k == "typedef": d.update(t=self.ty(s, D, 2), inl=int(s.bool()))
            elif k == "alias": d.update(t=self.ty(s, D, 2))
            elif k == "fn": d.update(r=self.ty(s, D, 1), p=[self.ty(s, D, 1) for _ in range(s.draw(4))])
            D.append(d)
        return {"decls": D, "types": [self.ty(s, D, 3) for _ in range(s.int(1, 4))], "x": s.int(0, 99), "level": s.draw(len(self.levels) - 1)}

    def ty(self, s, D, depth):
        if depth and s.bool(1, 3):
            k = s.choice(["ptr", "arr", "slice", "vec"])
            if k == "vec": return ["vec", ["base", s.choice([x for x in INT if "128" not in x] + list(FLT))], s.choice([2, 4, 8])]
            return [k, self.ty(s, D, depth - 1), s.int(1, 5)]
        us = [i for i, d in enumerate(D) if d["k"] not in ("iface",)]
        if us and s.bool(): return ["d", s.choice(us)]
        return ["base", s.choice(list(INT) + list(FLT) + ["bool", "String", "any", "typeid"])]

    def nontrivial(self, c): return len(c["decls"]) > 1 or any(d["k"] in ("enum", "struct", "union") and (d.get("n", 0) > 2 or len(d.get("m", "")) > 2) for d in c["decls"])
    def labels(self, c):
        for d in c["decls"]: yield d["k"]
        for t in c["types"]: yield t[0]

    def valid(self, c):
        try: return bool(self.emit(0, c))
        except Exception: return False

    # --- the model
    def low(self, c, t):
        """Follows aliases."""
        while t[0] == "d" and c["decls"][t[1]]["k"] == "alias": t = c["decls"][t[1]]["t"]
        return t

    def spell(self, k, c, t, real=False):
        if real: t = self.low(c, t)
        if t[0] == "base": return t[1]
        if t[0] == "d": return f"{'F' if c['decls'][t[1]]['k'] == 'fn' else 'T'}y{k}_{t[1]}"
        r = self.spell(k, c, t[1], real)
        return {"ptr": f"{r}*", "arr": f"{r}[{t[2]}]", "slice": f"{r}[]", "vec": f"{r}[<{t[2]}>]"}[t[0]]

    def lay(self, c, t):
        """(size, alignment)"""
        t = self.low(c, t)
        if t[0] == "base":
            n = t[1]
            if n in INT: return INT[n][0], INT[n][0]
            if n in FLT: return FLT[n], FLT[n]
            return {"bool": (1, 1), "String": (16, 8), "any": (16, 8), "typeid": (8, 8)}[n]
        if t[0] == "ptr": return 8, 8
        if t[0] == "slice": return 16, 8
        if t[0] == "arr":
            a, b = self.lay(c, t[1]); return a * t[2], b
        if t[0] == "vec":
            a, b = self.lay(c, t[1]); return a * t[2], a * t[2]
        d = c["decls"][t[1]]
        if d["k"] in ("enum", "bits"): return INT[d["b"]][0], INT[d["b"]][0]
        if d["k"] == "typedef": return self.lay(c, d["t"])
        if d["k"] == "fn": return 8, 8
        o = self.offs(c, d)
        al = max(self.lay(c, m)[1] for m in d["m"])
        sz = max(a + self.lay(c, m)[0] for a, m in zip(o, d["m"]))
        return (sz + al - 1) // al * al, al

    def offs(self, c, d):
        r, at = [], 0
        for m in d["m"]:
            s, a = self.lay(c, m)
            at = (at + a - 1) // a * a if d["k"] == "struct" else 0
            r.append(at); at += s
        return r

    def kind(self, c, t):
        t = self.low(c, t)
        if t[0] == "base": return ("SIGNED_INT" if INT[t[1]][1] else "UNSIGNED_INT") if t[1] in INT else "FLOAT" if t[1] in FLT else {"bool": "BOOL", "String": "DISTINCT", "any": "ANY", "typeid": "TYPEID"}[t[1]]
        if t[0] != "d": return {"ptr": "POINTER", "arr": "ARRAY", "slice": "SLICE", "vec": "VECTOR"}[t[0]]
        return {"enum": "ENUM", "struct": "STRUCT", "union": "UNION", "bits": "BITSTRUCT", "typedef": "DISTINCT", "fn": "FUNC"}[c["decls"][t[1]]["k"]]

    def hasfn(self, c, t):
        t = self.low(c, t)
        if t[0] == "d": return c["decls"][t[1]]["k"] == "fn"
        return t[0] != "base" and self.hasfn(c, t[1])

    def eq(self, c, t):
        t = self.low(c, t)
        if t[0] in ("arr", ): return self.eq(c, t[1])
        if t[0] == "slice": return self.eq(c, t[1])
        if t[0] == "d":
            d = c["decls"][t[1]]
            if d["k"] == "typedef": return self.eq(c, d["t"])
            if d["k"] in ("struct", "union"): return 0
        return 1

    def emit(self, k, c):
        D, b, w = [], [], []
        u = [0]
        def L(n, e, v):
            n = tag(n)
            b.append(f'\tpl("{n}", (long)({e}));'); w.append(f"{n}={int(v)}")
        def B(n, e, v):
            n = tag(n)
            b.append(f'\tti("{n}", ({e}));'); w.append(f"{n}={int(v)}")
        def S(n, e, v):
            n = tag(n)
            b.append(f'\tps("{n}", (char[]){e});'); w.append(f"{n}={v}")
        def tag(n): return f"{n}.{len(w)}"
        def nm():
            u[0] += 1
            return f"v{k}_{u[0]}"
        def common(T, t):
            sz, al = self.lay(c, t)
            L("sz", f"{T}.sizeof", sz); L("al", f"{T}.alignof", al)
            B("kind", f"{T}.kindof == TypeKind.{self.kind(c, t)}", 1)
            n = nm()
            b.append(f"\ttypeid {n} = tid({T}.typeid);")
            L("rsz", f"{n}.sizeof", sz); B("rkind", f"{n}.kindof == TypeKind.{self.kind(c, t)}", 1)
            B("same", f"{n} == {self.spell(k, c, t, True)}.typeid", 1)
            lt = self.low(c, t)
            inner = None
            if lt[0] in ("ptr", "arr", "slice", "vec"): inner = lt[1]
            if lt[0] == "d":
                d = c["decls"][lt[1]]
                if d["k"] == "typedef": inner = d["t"]
                if d["k"] in ("enum", "bits"): inner = ["base", d["b"]]
            if inner:
                B("inner", f"{T}.inner == {self.spell(k, c, inner)}.typeid", 1)
                B("rinner", f"{n}.inner == {self.spell(k, c, inner)}.typeid", 1)
            if lt[0] in ("arr", "vec"): L("len", f"{T}.len", lt[2]); L("rlen", f"{n}.len", lt[2])
            if lt[0] != "base" or lt[1] not in ("any",): B("eq", f"{T}.is_eq", self.eq(c, t))
            if "fn(" not in str(T) and not self.hasfn(c, t): S("nameof", f"{T}.nameof", self.spell(k, c, t, True))
            return n
        for i, d in enumerate(c["decls"]):
            T = self.spell(k, c, ["d", i])
            kd = d["k"]
            if kd == "enum":
                vals = []
                for e in range(d["n"]):
                    row = []
                    for z, a in enumerate(d["a"]):
                        q = (d["v"] * 7 + e * 31 + z * 13) % 200
                        row.append({"int": q - 100, "char": q, "String": WORDS[q % 10], "bool": q & 1, "double": q, "ulong": q << 40}[ASSOC[a]])
                    vals.append(row)
                lit = lambda a, v: {"String": f'"{v}"', "bool": "true" if v == 1 else "false", "double": f"{v}.0"}.get(ASSOC[a], str(v))
                asc = ", ".join(f"{ASSOC[a]} as{z}" for z, a in enumerate(d["a"]))
                D.append(f"enum {T} : {d['b']}" + (f" ({asc})" if asc else "") + "\n{\n" + "".join(f"\tVAL_{e}" + (" = " + (lit(d['a'][0], r[0]) if len(r) == 1 else "{ " + ", ".join(lit(a, v) for a, v in zip(d['a'], r)) + " }") if r else "") + ",\n" for e, r in enumerate(vals)) + "}")
                n = common(T, ["d", i])
                L("elements", f"{T}.elements", d["n"]); L("values", f"{T}.values.len", d["n"]); L("names", f"{T}.names.len", d["n"])
                L("assoc", f"{T}.associated.len", len(d["a"]))
                for z, a in enumerate(d["a"]): B("as", f"{T}.associated[{z}] == {ASSOC[a]}.typeid", 1)
                L("rnames", f"{n}.names.len", d["n"]); L("rlen", f"{n}.len", d["n"])
                e = c["x"] % d["n"]
                ev, rn = nm(), nm()
                b.append(f"\tusz {rn} = (usz)idl({e});\n\t{T} {ev} = {T}.from_ordinal({rn});")
                L("ord", f"{T}.VAL_{e}.ordinal", e); L("rord", f"{ev}.ordinal", e); S("vname", f"{T}.VAL_{e}.nameof", f"VAL_{e}"); S("rvname", f"{ev}.nameof", f"VAL_{e}")
                S("nm", f"{T}.names[{rn}]", f"VAL_{e}"); S("cnm", f"{T}.names[{e}]", f"VAL_{e}"); S("tnm", f"{n}.names[{rn}]", f"VAL_{e}"); L("vals", f"{T}.values[{rn}].ordinal", e)
                for z, a in enumerate(d["a"]):
                    for o, src in (("a", f"{T}.VAL_{e}"), ("ra", ev), ("va", f"{T}.values[{rn}]")):
                        v = vals[e][z]
                        if ASSOC[a] == "String": S(o, f"{src}.as{z}", v)
                        elif ASSOC[a] == "bool": B(o, f"{src}.as{z}", v)
                        else: L(o, f"{src}.as{z}", v)
            elif kd in ("struct", "union"):
                body = "".join(f"\t{'inline ' if d['inl'] and z == 0 else ''}{self.spell(k, c, m)} m{z};\n" for z, m in enumerate(d["m"]))
                D.append(f"{kd} {T}\n{{\n{body}}}")
                for z in range(d["meth"]): D.append(f"fn void {T}.meth{z}(&self) {{ }}")
                n = common(T, ["d", i])
                of = self.offs(c, d)
                L("nm", f"{T}.membersof.len", len(of))
                for z, m in enumerate(d["m"]):
                    sz, al = self.lay(c, m)
                    S("mn", f"{T}.membersof[{z}].nameof", f"m{z}"); L("mo", f"{T}.membersof[{z}].offsetof", of[z]); L("ms", f"{T}.membersof[{z}].sizeof", sz)
                    B("mt", f"{T}.membersof[{z}].typeid == {self.spell(k, c, m, True)}.typeid", 1)
                    B("mk", f"{T}.membersof[{z}].kindof == TypeKind.{self.kind(c, m)}", 1)
                y = nm()
                b.append(f"\t{T} {y};")
                for z, m in enumerate(d["m"]): L("mo2", f"$offsetof({y}.m{z})", of[z]); L("ro", f"(char*)&{y}.m{z} - (char*)&{y}", of[z])
                B("sub", f"{T}.is_substruct" if kd == "struct" else "false", d["inl"])
                b.append(f"\t$foreach $i{k}_{i}, $m{k}_{i} : {T}.membersof:\n\t\tpl($m{k}_{i}.nameof, $i{k}_{i} + $m{k}_{i}.offsetof * 100);\n\t$endforeach")
                w += [f"m{z}={z + o * 100}" for z, o in enumerate(of)]
                L("nmeth", f"{T}.methodsof.len", d["meth"])
                for z in range(d["meth"]): S("meth", f"{T}.methodsof[{z}]", f"meth{z}")
                if d["inl"]:
                    B("par", f"{T}.parentof == {self.spell(k, c, d['m'][0])}.typeid", 1); B("rpar", f"{n}.parentof == {self.spell(k, c, d['m'][0])}.typeid", 1)
            elif kd == "bits":
                at, ms = 0, []
                for x in d["w"]:
                    if at + x > INT[d["b"]][0] * 8: break
                    ms.append((at, x)); at += x
                if not ms: ms = [(0, 1)]
                D.append(f"bitstruct {T} : {d['b']}\n{{\n" + "".join(f"\t{'uint' if x > 1 else 'bool'} m{z} : {a}{'..%d' % (a + x - 1) if x > 1 else ''};\n" for z, (a, x) in enumerate(ms)) + "}")
                common(T, ["d", i])
                L("nm", f"{T}.membersof.len", len(ms))
                for z in range(len(ms)): S("mn", f"{T}.membersof[{z}].nameof", f"m{z}")
            elif kd == "typedef":
                D.append(f"typedef {T} = {'inline ' if d['inl'] else ''}{self.spell(k, c, d['t'])};")
                n = common(T, ["d", i])
                if d["inl"]:
                    B("par", f"{T}.parentof == {self.spell(k, c, d['t'])}.typeid", 1); B("rpar", f"{n}.parentof == {self.spell(k, c, d['t'])}.typeid", 1)
            elif kd == "alias":
                D.append(f"alias {T} = {self.spell(k, c, d['t'])};")
                common(T, ["d", i])
            elif kd == "fn":
                D.append(f"alias {T} = fn {self.spell(k, c, d['r'])}({', '.join(self.spell(k, c, p) + ' p%d' % z for z, p in enumerate(d['p']))});")
                B("ret", f"{T}.returns == {self.spell(k, c, d['r'])}.typeid", 1)
                L("np", f"{T}.paramsof.len", len(d["p"]))
                for z, p in enumerate(d["p"]):
                    S("pn", f"{T}.paramsof[{z}].name", f"p{z}"); B("pt", f"{T}.paramsof[{z}].type == {self.spell(k, c, p)}.typeid", 1)
                L("fsz", f"{T}.sizeof", 8)
            elif kd == "iface":
                D.append(f"interface {T} {{ fn void foo(); }}")
                L("isz", f"{T}.sizeof", 16); B("ikind", f"{T}.kindof == TypeKind.INTERFACE", 1)
        for t in c["types"]:
            T = self.spell(k, c, t)
            if t[0] != "base": D.append(f"alias Al{k}_{len(D)} = {T};"); T = f"Al{k}_{len(D) - 1}"
            common(T, t)
            lt = self.low(c, t)
            if lt[0] == "base" and lt[1] in INT:
                s, sg = INT[lt[1]]
                b.append(f'\tpw("max", (uint128){T}.max); pw("min", (uint128){T}.min);')
                w.append("max=" + pf.u128((1 << (s * 8 - sg)) - 1)); w.append("min=" + pf.u128(-(1 << (s * 8 - 1)) if sg else 0))
        return "\n".join(D), "\n".join(b), w


class C21(pbt.Check):
    id = "C21"
    rule = "more than one declaration, or one with several members or values"
    families = [Decls()]


CHECK = C21()
