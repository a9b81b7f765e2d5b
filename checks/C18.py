"""C18: compilation is deterministic and independent of declaration order."""
import os, random, hashlib
from vf import pbt, c3
from checks.C14 import Configs, AXES


def digest(d):
    o = {}
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            p = os.path.join(root, f)
            o[os.path.relpath(p, d)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return o


class Same(Configs):
    """The same command twice gives the same bytes; other file orders and directories the same behaviour."""
    name = "same"
    quick, thorough = 160, 6000

    def gen(self, s):
        c = Configs.gen(self, s)
        c["shuffle"] = s.draw(1 << 20)
        c["order"] = s.choice(["files", "sections", "dir", "threads"])
        if s.bool(2, 3): c["files"] = True
        c["cfg"]["linker"] = ""
        if c["cfg"]["std"] == "yes": c["cfg"]["std"], c["cfg"]["strip"] = s.choice(["yes", "no", "no"]), ""  # std::math::random holds $$TIME
        return c

    def labels(self, c):
        return Configs.labels(self, c) | {c["order"]}

    def compile(self, c, d, names, extra=(), rel=False):
        """-> (accepted, run output, digest of emitted files)"""
        cmd = [c3.c3c(), "compile", *(names if rel else [f"{d}/{n}" for n in names]), "-o", f"{d}/x", "--ansi=no", "--emit-llvm", "--llvm-out", f"{d}/ll", "--obj-out", f"{d}/ob"]
        cmd += ["--stdlib", c3.stdlib()] if c["cfg"]["std"] == "yes" else ["--use-stdlib=no"]
        cmd += self.flags(c) + list(extra)
        if os.path.exists(f"{d}/x"): os.unlink(f"{d}/x")
        r = c3.sh(cmd, cwd=d, timeout=120)
        ok = r.code == 0 and os.path.exists(f"{d}/x")
        dg = {**digest(f"{d}/ll"), **digest(f"{d}/ob")} if ok else {}
        if ok: dg["x"] = hashlib.sha256(open(f"{d}/x", "rb").read()).hexdigest()
        x = c3.sh([f"{d}/x"], cwd=d, timeout=20) if ok else None
        return ok, (x.code, x.out) if x else r.text, dg

    def one(self, c):
        F, _ = self.files(c)
        fl = " ".join(self.flags(c))
        with c3.Tmp() as d:
            for n, t in F.items():
                with open(f"{d}/{n}", "w") as f: f.write(t)
            names = list(F)
            a = self.compile(c, d, names)
            if not a[0]: return f"{fl}: a valid program was refused: {a[1][-800:]}"
            c3.sh(["/bin/rm", "-rf", f"{d}/ll", f"{d}/ob"])
            b = self.compile(c, d, names)
            if not b[0]: return f"{fl}: accepted the first time, refused the second: {b[1][-800:]}"
            if set(a[2]) != set(b[2]): return f"{fl}: the second identical command wrote other files: {sorted(set(a[2]) ^ set(b[2]))}"
            df = [k for k in a[2] if a[2][k] != b[2][k]]
            if df: return f"{fl}: identical commands wrote different {df}"
        rnd = random.Random(c["shuffle"])
        with c3.Tmp() as d:
            extra, rel = [], False
            if c["order"] == "files": rnd.shuffle(names)
            elif c["order"] == "sections":
                secs = list(F.values())
                rnd.shuffle(secs)
                if c["files"]: F = {"one.c3": "\n".join(secs)}
                else:
                    secs = ["module " + x for x in F["all.c3"].split("\nmodule ")]
                    secs[0] = secs[0][7:]
                    rnd.shuffle(secs)
                    F = {"one.c3": "\n".join(secs)}
                names = list(F)
            elif c["order"] == "dir": rel = True
            else: extra = ["--threads", str(rnd.randint(1, 9))]
            for n, t in F.items():
                with open(f"{d}/{n}", "w") as f: f.write(t)
            z = self.compile(c, d, names, extra, rel)
        if not z[0]: return f"{fl}: accepted, but refused with {c['order']} {names} {extra} changed: {z[1][-1000:]}"
        if self.norm(z[1]) != self.norm(a[1]): return f"{fl}: behaves differently with {c['order']} {names} {extra} changed: {a[1]} / {z[1]}"[:3000]

    @staticmethod
    def norm(r):
        """@finalizer functions of one priority run in an order the language leaves open."""
        o, n = r[1].partition(b"end\n")[::2]
        return r[0], o, sorted(n.split(b"\n"))


def tysize(k): return {"char": 1, "short": 2, "int": 4, "long": 8, "double": 8, "int*": 8}[k]


class Order(pbt.Family):
    """Mutually dependent declarations in any order, possibly with one mistake or cycle."""
    name = "order"
    batch = 1
    quick, thorough = 500, 16000

    def gen(self, s):
        n = s.int(3, 10)
        ds = []
        for i in range(n):
            k = s.choice(["const", "struct", "typedef", "alias", "enum", "fn", "macro", "global", "generic", "assert", "if", "method", "iface", "bits", "ctfn", "union", "fault", "fnty", "attr", "ctif"])
            ds.append([k, s.draw(99), [s.draw(9) for _ in range(3)], s.choice(["char", "short", "int", "long", "double", "int*"])])
        return {"decls": ds, "bad": s.choice(["", "", "", "", "cycle", "dup", "undef", "ambig", "private", "type"]), "at": s.draw(9), "perms": [s.draw(1 << 20), s.draw(1 << 20)], "mods": s.bool(), "split": [s.draw(2) for _ in range(12)]}

    def nontrivial(self, c):
        return len({d[0] for d in c["decls"]}) >= 3

    def labels(self, c):
        return {d[0] for d in c["decls"]} | {c["bad"] or "good"}

    def reduce(self, c):
        for i in range(len(c["decls"])): yield {**c, "decls": c["decls"][:i] + c["decls"][i + 1:]}
        if c["mods"]: yield {**c, "mods": False}
        for k in (0, 1): yield {**c, "perms": [c["perms"][k]] * 2}

    def valid(self, c): return bool(c["decls"])

    def texts(self, c):
        """References only point to earlier entries of the list, whatever order the text has."""
        ds = c["decls"]
        ints, types, fns, out, use = [], [], [], [], []
        for i, (k, v, r, t) in enumerate(ds):
            I = lambda j: ints[r[j] % len(ints)] if ints else str(v % 7 + 1)
            T = lambda j: types[r[j] % len(types)] if types else t
            if k == "const":
                out.append(f"const CC{i} = {I(0)} + {v % 5};" if r[2] % 2 else f"const int CC{i} = (int)({I(0)}) * 1 + {v % 5};")
                ints.append(f"(int)CC{i}")
            elif k == "struct":
                out.append(f"struct St{i} {{ {t} a; {T(0)} b; {T(1)}* p; char[1 + ({I(2)}) % 16] c; }}")
                types.append(f"St{i}"); ints += [f"(int)St{i}.sizeof % 100", f"(int)St{i}.c.offsetof % 50"]
            elif k == "union":
                out.append(f"union Un{i} {{ {t} a; {T(0)} b; }}")
                types.append(f"Un{i}"); ints.append(f"(int)Un{i}.sizeof % 100")
            elif k == "typedef":
                out.append(f"typedef Td{i} = {T(0)};"); types.append(f"Td{i}")
            elif k == "alias":
                out.append(f"alias Al{i} = {T(0)}[1 + ({I(1)}) % 8];"); types.append(f"Al{i}"); ints.append(f"(int)Al{i}.len")
            elif k == "enum":
                out.append(f"enum En{i} : int (int w) {{ A = {I(0)}, B = {v}, C = {I(1)} }}"); types.append(f"En{i}"); ints.append(f"(int)En{i}.values.len")
                use.append(f"En{i}.C.w")
            elif k == "fn":
                out.append(f"fn int ff{i}(int x, {T(0)}* p = null) @noinline {{ {T(1)}[2] z; return x + {I(0)} + (int)z.len; }}")
                fns.append(f"ff{i}"); use.append(f"ff{i}({v})")
            elif k == "macro":
                out.append(f"macro mm{i}(x) {{ {('return ' + fns[r[0] % len(fns)] + '((int)x)') if fns else 'return (int)x'} + {I(1)}; }}"); use.append(f"mm{i}({v})")
            elif k == "global":
                out.append(f"int gg{i} = {I(0)};\nint* gp{i} = &gg{i};"); use.append(f"*gp{i}")
            elif k == "generic":
                out.append(f"alias Ge{i} = gen::Box {{ {T(0)} }};"); types.append(f"Ge{i}"); ints.append(f"(int)Ge{i}.sizeof % 100")
            elif k == "assert":
                out.append(f"$assert {I(0)} + 1000000 > 0;")
            elif k == "if":
                out.append(f"int oo{i} @if(({I(0)}) % 2 == 0) = 1;\nlong oo{i} @if(({I(0)}) % 2 != 0) = 2;"); use.append(f"(int)oo{i}")
            elif k == "method":
                if types and not types[r[0] % len(types)].startswith(("Al", "int", "Fn")):
                    ty = types[r[0] % len(types)]
                    out.append(f"fn int {ty}.me{i}(&self, int x) {{ return x * 2 + {I(1)}; }}"); use.append(f"(({ty}*)&zero).me{i}({v})")
                else: out.append(f"fn int me{i}(int x) {{ return x; }}")
            elif k == "iface":
                out.append(f"interface In{i} {{ fn int hi{i}(int x); }}\nstruct Im{i} (In{i}) {{ {T(0)} q; int a; }}\nfn int Im{i}.hi{i}(&self, int x) @dynamic {{ return self.a + x; }}"); types.append(f"Im{i}")
                use.append(f"call{i}({v})")
                out.append(f"fn int call{i}(int v) {{ Im{i} m; In{i} q = &m; return q.hi{i}(v); }}")
            elif k == "bits":
                out.append(f"bitstruct Bi{i} : int {{ int a : 0..(({I(0)}) % 8 + 8); bool b : 31; }}"); types.append(f"Bi{i}")
                use.append(f"(int)((Bi{i}){{ .a = 3 }}).a")
            elif k == "ctfn":
                out.append(f"macro int ct{i}() @const {{ return {I(0)} + 1; }}\nconst DD{i} = ct{i}();"); ints.append(f"(int)DD{i}")
            elif k == "fault":
                out.append(f"faultdef XX{i}, YY{i};\nfn int? fo{i}(int x) {{ if (x > 2) return XX{i}?; return x; }}"); use.append(f"(fo{i}({v % 5}) ?? {I(0)})")
            elif k == "fnty":
                out.append(f"alias Fn{i} = fn int({T(0)}*, int);\nfn int fg{i}({T(0)}* a, int b) {{ return b + 1; }}\nFn{i} fp{i} = &fg{i};"); use.append(f"fp{i}(null, {v})"); types.append(f"Fn{i}")
            elif k == "attr":
                out.append(f"attrdef @At{i} = @noinline;\nfn int fa{i}() @At{i} {{ return {I(0)}; }}"); use.append(f"fa{i}()")
            elif k == "ctif":
                out.append(f"fn int fb{i}()\n{{\n\t$if ({I(0)}) % 2 == 0:\n\t\treturn {I(1)};\n\t$else\n\t\treturn {v};\n\t$endif\n}}"); use.append(f"fb{i}()")
        a = c["at"] % len(ds)
        b = c["bad"]
        if b == "cycle": out += [f"const XC1 = XC2 + 1;", f"const XC2 = XC1 + 1;"] if a % 2 else [f"struct Xs {{ Xt a; }}", "struct Xt { Xs[2] b; }"]
        elif b == "dup": out += ["int xdup;", "fn int xdup() { return 1; }"] if a % 2 else ["struct Xd { int a; }", "struct Xd { int a; }"]
        elif b == "undef": out.append("int xund = xnothere;" if a % 2 else "fn int xund() { return xnothere(3); }")
        elif b == "type": out.append('int xty = "hello";' if a % 2 else 'fn int xty() { char* c = "x"; return c; }')
        elif b == "private": out.append("int xpr = priv::hidden();")
        elif b == "ambig": out.append("fn void xa() { Clash q; }")
        return out, use

    def files(self, c, perm):
        out, use = self.texts(c)
        rnd = random.Random(perm)
        if perm: rnd.shuffle(out)
        main = "fn int main()\n{\n\tchar[4096] zero;\n" + "".join(f'\tprintf("%d\\n", (int)({u}));\n' for u in use) + "\treturn 0;\n}\n"
        gen = "module gen { Typ };\nstruct Box { Typ t; char c; Box* next; }\nmodule priv;\nfn int hidden() @private { return 1; }\n"
        am = "module am;\nstruct Clash { int a; }\nmodule an;\nstruct Clash { int a; }\n"
        h = "import gen, am, an, priv;\nextern fn int printf(char* f, ...);\n"
        if not c["mods"]:
            body = out + [main]
            if perm: rnd.shuffle(body)
            F = {"gen.c3": gen, "am.c3": am, "t.c3": "module t;\n" + h + "\n".join(body) + "\n"}
        else:
            # the same module in several files
            parts = {0: [], 1: [], 2: []}
            for j, o in enumerate(out): parts[c["split"][j % 12] if not perm else rnd.randrange(3)].append(o)
            parts[rnd.randrange(3) if perm else 0].append(main)
            F = {"gen.c3": gen, "am.c3": am}
            for m in parts: F[f"t{m}.c3"] = "module t;\nimport gen, am, an, priv;\n" + ("extern fn int printf(char* f, ...);\n" if m == 0 else "") + "\n".join(parts[m]) + "\n"
        names = list(F)
        if perm: rnd.shuffle(names)
        return F, names

    def render(self, c):
        return {"base": self.files(c, 0)[0], "permuted": [self.files(c, p)[0] for p in c["perms"]]}

    def run(self, cases):
        return [self.one(c) for c in cases]

    def attempt(self, c, perm):
        F, names = self.files(c, perm)
        with c3.Tmp() as d:
            for n, t in F.items():
                with open(f"{d}/{n}", "w") as f: f.write(t)
            r = c3.compile_([f"{d}/{n}" for n in names], f"{d}/x", ("-O0", "-g0"), False, cwd=d)
            if r.code or not os.path.exists(f"{d}/x"):
                if r.code not in (0, 1) or r.timeout: return "crash", r.how() + " " + r.text[-600:]
                return "rejected", r.text[-700:]
            x = c3.sh([f"{d}/x"], cwd=d, timeout=20)
            return "accepted", (x.code, x.out)

    def one(self, c):
        a = self.attempt(c, 0)
        if a[0] == "crash": return f"the compiler crashed: {a[1]}"
        if c["bad"] and a[0] == "accepted": return f"a program with a mistake ({c['bad']}) was accepted"
        if not c["bad"] and a[0] != "accepted": return f"a valid program was rejected: {a[1]}"
        for p in c["perms"]:
            if not p: continue
            b = self.attempt(c, p)
            if b[0] != a[0]: return f"{a[0]} in one order of declarations, {b[0]} in another (permutation {p}): {b[1] if b[0] != 'accepted' else a[1]}"
            if a[0] == "accepted" and a[1] != b[1]: return f"behaves differently with declarations permuted ({p}): {a[1]} / {b[1]}"


class C18(pbt.Check):
    id = "C18"
    rule = "same: at least 3 parts and 4 settings; order: declarations of at least 3 kinds"
    assumptions = ["@init and @finalizer functions of equal priority may run in any order, so at most one observable effect per priority is generated"]
    families = [Same(), Order()]


CHECK = C18()
