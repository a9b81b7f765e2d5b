"""C14: the build configuration never changes the behaviour of a well-defined program."""
import os
from vf import pbt, c3, prog

AXES = {
    "opt": ["-O0", "-O1", "-O2", "-O3", "-O4", "-O5", "-Os", "-Oz"],
    "dbg": [None, "-g", "-g0"],
    "safe": [None, "--safe=yes", "--safe=no"],
    "strip": [None, "--strip-unused=no", "--strip-unused=yes"],
    "single": [None, "--single-module=yes", "--single-module=no"],
    "threads": ["--threads 1", "--threads 2", "--threads 8"],
    "linker": [None, "--linker=builtin", "--linker=cc"],
    "reloc": [None, "--reloc=none", "--reloc=pic", "--reloc=PIC", "--reloc=pie", "--reloc=PIE"],
    "vec": [None, None, "--x86vec=sse", "--x86vec=avx"],
    "size": [None, None, None, "--optsize=none", "--optsize=small", "--optsize=tiny", "--optlevel=none", "--optlevel=less", "--optlevel=more", "--optlevel=max"],
    "msg": [None, None, "--panic-msg=yes", "--panic-msg=no", "--show-backtrace=no"],
    "mem": [None, None, None, "--memory-env=small"],
    "std": ["no", "no", "yes"],
}
PRE = """module base;
extern fn int printf(char* f, ...);
faultdef FA @builtin, FB @builtin, FC @builtin;
fn int tr(int k, int v) @noinline @builtin { printf("%d %d\\n", k, v); return v; }
fn bool trb(int k, bool v) @noinline @builtin { printf("%d %d\\n", k, (int)v); return v; }
fn int fi(fault f) @builtin { if (f == FA) return 1; if (f == FB) return 2; if (f == FC) return 3; return 0; }
macro bool @okk(#e) @builtin { if (catch #e) return false; return true; }
macro fault @caught(#e) @builtin { if (catch f = #e) return f; return (fault){}; }
interface Speaker { fn int speak(int x); fn int quiet() @optional; }
struct Pair { long a; double b; }
struct Big { int[7] x; }
"""


class Text(prog.Text):
    def func(self, f):
        ps = ", ".join(f"int {p}" for p in f["params"])
        attr = " @noinline" if f.get("noinline") else " @inline" if f.get("inline") else ""
        return f"fn {f['ret']} {self.nm(f['name'])}({ps}) @builtin{attr}\n{self.B(f['body'], 0)}\n"

    def decls(self):
        o = "".join(f"int {self.nm(n)} @builtin = {self.E(['c', v])};\n" for n, v in self.p["globals"].items())
        return o + "".join(f"int[{len(v)}] {self.nm(n)} @builtin = {{ {', '.join(self.E(['c', x]) for x in v)} }};\n" for n, v in self.p["arrays"].items())


def piece(kind, m, i, a, b):
    """-> (declarations of module m, declarations of another module, statements, expected lines)"""
    if kind == "init":
        return f"int ini{i} @builtin = {a};\nfn void setup{i}() @init {{ ini{i} += {b}; }}", "", f'printf("i%d\\n", ini{i});', [f"i{a + b}"]
    if kind == "prio":
        return (f"int pri{i} @builtin = {a};\nfn void p1{i}() @init(2000) {{ pri{i} = pri{i} * 3 + 1; }}\nfn void p2{i}() @init(1000) {{ pri{i} = pri{i} * 5 + 2; }}", "",
                f'printf("i%d\\n", pri{i});', [f"i{(a * 5 + 2) * 3 + 1}"])
    if kind == "table":
        return (f"alias Fp{i} = fn int(int);\nfn int ta{i}(int x) @local {{ return x + {a}; }}\nfn int tb{i}(int x) {{ return x * {b}; }}\nFp{i}[2] tab{i} @builtin = {{ &ta{i}, &tb{i} }};", "",
                f'for (int k = 0; k < 2; k++) printf("t%d\\n", tab{i}[k](7));', [f"t{7 + a}", f"t{7 * b}"])
    if kind == "ptr":
        return f"int tgt{i} @builtin = {a};\n", f"int*[3] pp{i} @builtin = {{ &tgt{i}, null, &tgt{i} }};", f'*pp{i}[2] += {b}; printf("p%d %d\\n", tgt{i}, (int)(pp{i}[1] == null));', [f"p{a + b} 1"]
    if kind == "dyn":
        return (f"struct Dy{i} (Speaker) {{ int v; }}\nfn int Dy{i}.speak(&self, int x) @dynamic {{ return self.v * 10 + x; }}\nDy{i} dy{i} = {{ {a} }};\nfn any mk{i}() @builtin {{ return &dy{i}; }}",
                "", f'Speaker sp{i} = (Speaker)mk{i}(); printf("d%d %d\\n", sp{i}.speak({b}), (int)(bool)&sp{i}.quiet);', [f"d{a * 10 + b} 0"])
    if kind == "static":
        return f"fn int cnt{i}() @noinline @builtin {{ static int c = {a}; c += {b}; return c; }}", "", f'cnt{i}(); printf("s%d\\n", cnt{i}());', [f"s{a + 2 * b}"]
    if kind == "tls":
        return f"tlocal int tl{i} @builtin = {a};\nfn int tlf{i}() @noinline @builtin {{ return ++tl{i}; }}", "", f'tl{i} += {b}; printf("l%d\\n", tlf{i}());', [f"l{a + b + 1}"]
    if kind == "export":
        return f'fn int xx{i}(int a) @export("vf_x_{i}") {{ return a * {a} + {b}; }}', f'extern fn int vf_x_{i}(int) @builtin;', f'printf("x%d\\n", vf_x_{i}(3));', [f"x{3 * a + b}"]
    if kind == "struct":
        return (f"fn Pair mp{i}(long a, double b) @noinline @builtin {{ return {{ a + {a}, b * 2 }}; }}\nfn Big mb{i}(Big z, int k) @noinline @builtin {{ z.x[k] += {b}; return z; }}", "",
                f'Pair pr{i} = mp{i}(5, 1.5); Big bg{i} = mb{i}({{ .x = {{ 1, 2, 3, 4, 5, 6, 7 }} }}, 6); printf("q%lld %a %d %d\\n", pr{i}.a, pr{i}.b, bg{i}.x[6], bg{i}.x[0]);', [f"q{5 + a} 0x1.8p+1 {7 + b} 1"])
    if kind == "enum":
        n = 3 + a % 3
        return (f"enum En{i} : char (int w, char* t) {{ " + ", ".join(f"K{j} = {{ {j * b}, \"k{j}\" }}" for j in range(n)) + f" }}\nfn int ew{i}(int k) @noinline @builtin {{ return En{i}.from_ordinal(k).w; }}\nfn char* et{i}(int k) @noinline @builtin {{ return En{i}.from_ordinal(k).t; }}", "",
                f'printf("e%d %s\\n", ew{i}({n - 1}), et{i}({n - 2}));', [f"e{(n - 1) * b} k{n - 2}"])
    if kind == "vararg":
        return f"fn int va{i}(int... a) @noinline @builtin {{ int s = {a}; foreach (x : a) s = s * 2 + x; return s; }}", "", f'printf("v%d\\n", va{i}(1, {b}, 3));', [f"v{((a * 2 + 1) * 2 + b) * 2 + 3}"]
    if kind == "string":
        return f'char[] sg{i} @builtin = "ab\\0c{a}";\nconst char* PS{i} @builtin = "z{b}";', "", f'printf("w%d %d %s\\n", (int)sg{i}.len, (int)sg{i}[^1], PS{i});', [f"w{4 + len(str(a))} {ord(str(a)[-1])} z{b}"]
    if kind == "weak":
        return f"fn int wk{i}() @weak @noinline @builtin {{ return {a}; }}", "", f'printf("k%d\\n", wk{i}());', [f"k{a}"]
    if kind == "generic":
        return "", "", f'printf("n%d %lld\\n", gen::twice {{ int }} ({a}), gen::twice {{ long }} ({b}));', [f"n{2 * a} {2 * b}"]
    if kind == "tid":
        return f"struct Tt{i} {{ int a; }}\nfn typeid ti{i}() @noinline @builtin {{ return Tt{i}.typeid; }}\nfn any ta{i}(Tt{i}* t) @noinline @builtin {{ return t; }}", f"fn bool tq{i}(any x) @noinline @builtin {{ return x.type == Tt{i}.typeid; }}", \
            f'Tt{i} tt{i} = {{ {a} }}; any an{i} = ta{i}(&tt{i}); printf("y%d %d %d\\n", (int)(ti{i}() == an{i}.type), (int)tq{i}(an{i}), (int)tq{i}(&gz));', ["y1 1 0"]
    if kind == "float":
        return f"fn double fl{i}(double x) @noinline @builtin {{ return x * {a} + {b}; }}", "", f'printf("f%a\\n", fl{i}(0.5));', ["f" + chex(0.5 * a + b)]
    if kind == "optional":
        return f"fn int? op{i}(int x) @noinline @builtin {{ if (x > {a}) return FB?; return x; }}", "", f'if (catch q{i} = op{i}({a + 1})) printf("o%d\\n", fi(q{i})); printf("o%d\\n", op{i}({a}) ?? -1);', ["o2", f"o{a}"]
    if kind == "dist":
        return f"const int[4] CC{i} @builtin = {{ {a}, {b}, 3, 0 }};\nfn int ci{i}(int k) @noinline @builtin {{ return CC{i}[k]; }}", "", f'printf("c%d %d\\n", ci{i}(1), ci{i}(3));', [f"c{b} 0"]
    if kind == "finish":
        return f'fn void fin{i}() @finalizer @local {{ base::printf("z{a}\\n"); }}', "", f'printf("r{b}\\n");', [f"r{b}"]
    raise KeyError(kind)


def chex(x):
    h = float(x).hex()
    m, e = h.split("p")
    return (m.rstrip("0").rstrip(".") if "." in m else m) + "p" + e


KINDS = ["init", "prio", "table", "ptr", "dyn", "static", "tls", "export", "struct", "enum", "vararg", "string", "weak", "generic", "tid", "float", "optional", "dist", "finish"]


class Configs(pbt.Family):
    name = "configs"
    batch = 1
    quick, thorough = 300, 12000

    def gen(self, s):
        ps = []
        for _ in range(s.int(1, 3)):
            p = prog.Gen(s, opt=s.bool()).program()
            if prog.expected(p)[0] is not None: ps.append(p)
        c = {"progs": ps, "where": s.list(6, 12, lambda: s.draw(3)), "pieces": [[s.choice(KINDS), s.int(1, 99), s.int(1, 99), s.draw(3)] for _ in range(s.int(2, 8))],
             "exit": s.choice([0, 0, 1, 77, 255]), "cfg": {k: s.choice([x or "" for x in v]) for k, v in AXES.items()}, "files": s.bool()}
        return c

    def valid(self, c):
        return all(prog.scoped(p) and prog.expected(p)[0] is not None for p in c["progs"])

    def nontrivial(self, c):
        return len(c["pieces"]) + len(c["progs"]) >= 3 and sum(bool(v) for v in c["cfg"].values()) >= 4

    def labels(self, c):
        return {v or k for k, v in c["cfg"].items()} | {p[0] for p in c["pieces"]}

    def render(self, c):
        return {"files": self.files(c)[0], "expected": self.files(c)[1][:40], "flags": self.flags(c)}

    def flags(self, c):
        return [y for k, v in c["cfg"].items() if k != "std" and v for y in v.split()]

    def reduce(self, c):
        for i in range(len(c["pieces"])): yield {**c, "pieces": c["pieces"][:i] + c["pieces"][i + 1:]}
        for i in range(len(c["progs"])): yield {**c, "progs": c["progs"][:i] + c["progs"][i + 1:]}
        for k, v in c["cfg"].items():
            d = AXES[k][0] or ""
            if v != d: yield {**c, "cfg": {**c["cfg"], k: d}}
        for i, p in enumerate(c["progs"]):
            for q in prog.reduce(p): yield {**c, "progs": c["progs"][:i] + [q] + c["progs"][i + 1:]}

    def files(self, c):
        mods = {m: [] for m in range(4)}
        main, want = [], []
        w = 0
        for i, p in enumerate(c["progs"]):
            t = Text(p, f"c{i}_")
            put = lambda x: mods[c["where"][w % len(c["where"])]].append(x)
            put(t.decls())
            for f in p["funcs"]:
                w += 1
                put(t.func(f))
            w += 1
            main.append("{\n" + prog.driver(t) + "}")
            want += prog.expected(p)[0]
        fin = []
        for i, (k, a, b, m) in enumerate(c["pieces"]):
            x, y, st, ex = piece(k, m, i, a, b)
            mods[m].append(x)
            mods[(m + 1) % 4].append(y)
            main.append("{ " + st + " }")
            want += ex
            if k == "finish": fin.append(f"z{a}")
        F = {"base.c3": PRE, "gen.c3": "module gen { Typ };\nfn Typ twice(Typ x) { return x + x; }\n"}
        for m in range(4):
            F[f"m{m}.c3"] = f"module m{m};\nimport base, gen, {", ".join(f"m{j}" for j in range(4) if j != m)};\nextern fn int printf(char* f, ...);\n" + "\n".join(mods[m])
        F["main.c3"] = "module prg;\nimport base, gen, m0, m1, m2, m3;\nextern fn int printf(char* f, ...);\nextern fn int fflush(void*);\nint gz;\nfn int main()\n{\n" + "\n".join(main) + f'\n\tprintf("end\\n"); return {c["exit"]};\n}}\n'
        if not c["files"]: F = {"all.c3": "\n".join(F.values())}
        return F, want + ["end"] + [("fin", sorted(fin))]

    def run(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        F, want = self.files(c)
        fin = want.pop()[1]
        with c3.Tmp() as d:
            for n, t in F.items():
                with open(f"{d}/{n}", "w") as f: f.write(t)
            r = c3.compile_([f"{d}/{n}" for n in F], f"{d}/x", self.flags(c), c["cfg"]["std"] == "yes", cwd=d)
            fl = " ".join(self.flags(c))
            if r.code != 0 or not os.path.exists(f"{d}/x"): return f"{fl}: refused or failed ({r.how()}):\n{r.text[-1200:]}"
            x = c3.sh([f"{d}/x"], cwd=d, timeout=20)
            got = [l for l in x.out.decode("utf-8", "replace").split("\n") if l]
            if x.code != c["exit"]: return f"{fl}: expected exit status {c['exit']}, got {x.how()} after {got[-3:]} {x.err[-300:]}"
            if got[:len(want)] != want:
                j = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                return f"{fl}: output line {j}: got {got[j:j + 3]}, expected {want[j:j + 3]}"
            if sorted(got[len(want):]) != fin: return f"{fl}: after main: got {got[len(want):]}, expected {fin}"
        return None


class C14(pbt.Check):
    id = "C14"
    rule = "the program has at least 3 parts and at least 4 settings differ from their defaults"
    assumptions = ["--x86vec=none is left out (LLVM cannot return doubles then); floating point results in the programs are exact, so relaxed math may not change them"]
    families = [Configs()]


CHECK = C14()
