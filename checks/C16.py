"""C16: any source is compiled or rejected with a located error; no crash, failed assertion or hang."""
import os, re, glob
from vf import pbt, c3, build

TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|`[^`]*`|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|/\*.*?\*/|[@$#]*[A-Za-z_][A-Za-z_0-9]*|[0-9][0-9a-zA-Z_]*(?:\.[0-9]+)?|\+\+\+=?|<<=|>>=|\.\.\.|::|\+\+|--|&&&|\|\|\||&&|\|\||[-+*/%&|^=!<>]=|<<|>>|\.\.|\?\?|\?:|!!|=>|->|<\*|\*>|\[<|>\]|\(<|>\)|\s+|.', re.S)
_corpus = None
FLAGS = [("-C",), ("-O0",), ("-O0", "--safe=no"), ("-O2",), ("-O0", "-g"), ("-O1", "-g0")]
NASTY = ["0", "-1", "1", "255", "256", "0x7fffffff", "0x80000000", "0xffffffffffffffff", "0x8000000000000000", "-9223372036854775808", "340282366920938463463374607431768211455", "1e308", "0.0", "1.5", "2147483648",
         "null", "true", "\"\"", "\"abc\"", "'a'", "{}", "{ 1, 2 }", "x\"00\"", "int.typeid", "int", "void", "char[]", "String", "int[3]", "int[*]", "int[<4>]", "int*", "void*", "double", "float16", "int128", "any", "fault", "typeid", "bool", "int?", "void?",
         "fn void() { }", "(int)", "$typeof(1)", "$sizeof(1)", "int.sizeof", "a", "b", "x", "y", "i", "foo", "test", "main", "Foo", "Bar", "Abc", "FOO", "BAR", "self", "$a", "$x", "#a", "#foo", "$Type", "@body", "@foo", "$vaarg[0]", "$vacount", "$vasplat",
         "!", "!!", "??", "?", "~", "&", "&&", "*", "^", "..", "...", "=", "==", "+=", "+++", "::", ".", ",", ";", ":", "(", ")", "{", "}", "[", "]", "[<", ">]", "<*", "*>", "=>", "++", "--", "<<", "%", "|", "@", "$", "#",
         "if", "else", "for", "foreach", "while", "do", "switch", "case", "default", "break", "continue", "return", "defer", "defer catch", "nextcase", "try", "catch", "static", "tlocal", "const", "var", "macro", "fn", "struct", "union", "enum", "bitstruct", "interface", "alias", "typedef", "faultdef", "attrdef",
         "inline", "import", "module", "extern", "asm", "assert", "$if", "$else", "$endif", "$switch", "$case", "$endswitch", "$for", "$endfor", "$foreach", "$endforeach", "$assert", "$error", "$echo", "$exec", "$include", "$embed", "$defined", "$eval", "$evaltype", "$typefrom", "$stringify", "$feature", "$is_const", "$assignable",
         "@private", "@local", "@inline", "@packed", "@align(8)", "@dynamic", "@optional", "@operator([])", "@test", "@builtin", "@if(true)", "@noinit", "@unused", "@deprecated", "@nodiscard", "@weak", "@export", "@naked", "@init", "@winmain", "@overlap", "@bigendian", "@compact", "@structlike", "@link(\"a\")", "@tag(\"a\", 1)"]
SNIP = ["int x @noinit;", "a[b] = c;", "$assert true;", "$if true: $endif", "foreach (i, &v : x) { }", "switch (1) { default: nextcase; }", "defer (catch e) { }", "return;", "return 1;", "return x!;", "int a, b;", "var z = 1;", "var $z = 1;", "var $Z = int;", "$z +++ 1;",
        "struct Zed { int a; }", "enum Zee : int (int k) { AB = 3 }", "union Zu { int a; float b; }", "bitstruct Zb : char { int a : 0..3; }", "interface Zi { fn void zz(); }", "alias Za = int;", "typedef Zt = inline int;", "faultdef ZF;", "const int ZC = 3;", "int zg;", "fn int zfn(int x = 3, args...) { return x; }",
        "macro zm(x; @body(y)) { @body(x); }", "macro @zm2(#x, $y, ...) { return $vacount; }", "fn void Foo.zmeth(&self) { }", "module zother {Type};", "module zmod;", "import zmod;", "<* @require x > 0 *>", "<* @param [&inout] x : `hi` *>", "asm { nop; }", "asm(\"nop\");", "attrdef @Zattr = @inline;", "alias Zf = fn int(int);",
        "int[] sl = { 1, 2 };", "int[<2>] vec = { 1, 2 };", "any an = &x;", "String st = \"a\" +++ \"b\";", "if (try q = x) { }", "if (catch q = x) { }", "while (true) { }", "do { } while (0);", "for (;;) { break; }", "x = y ? z : w;", "(x ?: y);", "x++;", "--y;", "*p = q;", "&&x;", "x.y.z = 3;", "x[1..2] = y[^2..];", "$foreach $v : { 1, 2 }: $endforeach", "tlocal int tl;", "@pool() { };", "$$abs(-1);", "$$trap();", "unreachable();", "assert(x);"]


def corpus():
    global _corpus
    if _corpus is None:
        _corpus = []
        base = f"{build.REPO}/test/test_suite"
        for p in sorted(glob.glob(f"{base}/**/*.c3", recursive=True) + glob.glob(f"{base}/**/*.c3t", recursive=True)):
            with open(p, encoding="utf-8", errors="replace") as f: t = f.read()
            t = re.split(r"^(?:// )?#expect:", t, flags=re.M)[0]
            t = re.split(r"^(?:// )?#file:[^\n]*\n", t, flags=re.M)
            t = "\n".join(x for x in t if x.strip())
            t = re.sub(r"^// ?#[a-z_-]+:[^\n]*\n", "", t, flags=re.M)
            if len(t) < 5000 and t.strip() and not re.search(r"\bstd::|\bio::|\bimport libc|\bmem::", t):
                _corpus.append((os.path.relpath(p, base), t))
        if len(_corpus) < 50:
            raise c3.HarnessBroken("the test suite that seeds the generator is missing")
    return _corpus


def toks(t):
    return TOK.findall(t)


def cls(t):
    """Lexical class of a token."""
    if t in TYPEKW: return "type"
    if t in OPS: return "op"
    if t[0].isdigit() or t in ("true", "false", "null"): return "num"
    if t[0] in "\"'`": return "str"
    m = re.match(r"[@$#]*", t).group(0)
    r = t[len(m):]
    if not r or not (r[0].isalpha() or r[0] == "_"): return None
    if not m and t in KEY: return None
    return m + ("C" if r.isupper() else "T" if r[0].isupper() else "v")


TYPEKW = set("int uint long ulong short ushort char ichar bool float double float16 int128 uint128 void any fault typeid isz usz iptr uptr".split())
OPS = set("+ - * / % & | ^ << >> && || == != < > <= >= += -= *= /= %= &= |= ^= <<= >>= +++ ?? ?: &&& |||".split())
KEY = set("if else for foreach foreach_r while do switch case default break continue return defer nextcase try catch static tlocal const var macro fn struct union enum bitstruct interface alias typedef faultdef attrdef inline import module extern asm assert".split())
LITS = ["0", "1", "-1", "255", "256", "1u", "0x7fffffff", "0xffff_ffff_ffff_ffff", "1l", "3.5", "1.0f", "true", "null", "\"ab\"", "'a'", "{}", "{ 1, 2 }", "x\"0102\"", "int.typeid", "(char)1", "-2147483648", "1i128", "&&1", "OOPS?", "$typeof(1).max"]


class Mutants(pbt.Family):
    name = "mutants"
    quick, thorough = 9000, 60000
    batch = 10

    def gen(self, s):
        C = corpus()
        name, t = C[s.int(0, len(C) - 1)]
        ts = toks(t)
        real = lambda: [i for i, x in enumerate(ts) if not x.isspace()]
        n = s.weighted([(4, 1), (4, 2), (3, 4), (2, 8), (1, 25), (1, 0)])
        soft = s.draw(2) > 0
        for _ in range(n):
            r = real()
            if not r: break
            i = r[s.int(0, len(r) - 1)]
            k = s.draw(15)
            if soft:
                self.soften(s, ts, r, i, k, C)
                continue
            if k == 0: del ts[i]
            elif k == 1: ts.insert(i, ts[i] + " ")
            elif k in (2, 3): ts[i] = s.choice(NASTY)
            elif k in (4, 14): ts.insert(i, " " + s.choice(NASTY) + " ")
            elif k == 5:
                j = r[s.int(0, len(r) - 1)]
                ts[i], ts[j] = ts[j], ts[i]
            elif k in (6, 15): ts[i] = ts[r[s.int(0, len(r) - 1)]]
            elif k == 7:
                j = min(len(ts), i + s.int(1, 12))
                del ts[i:j]
            elif k == 8:
                j = min(len(ts), i + s.int(1, 30))
                at = r[s.int(0, len(r) - 1)]
                ts[at:at] = ts[i:j]
            elif k in (9, 10):
                o = toks(C[s.int(0, len(C) - 1)][1])
                if o:
                    a = s.int(0, len(o) - 1)
                    ts[i:i + s.draw(3)] = [" "] + o[a:a + s.int(1, 25)] + [" "]
            elif k == 11: ts.insert(i, " " + s.choice(SNIP) + " ")
            elif k == 12:
                w = [j for j in r if re.match(r"[A-Za-z_]", ts[j])]
                if len(w) > 1: ts[w[s.int(0, len(w) - 1)]] = ts[w[s.int(0, len(w) - 1)]]
            else:
                o, c = s.choice([("(", ")"), ("{", "}"), ("[", "]"), ("(int)(", ")"), ("$eval(", ")"), ("&", ""), ("*", ""), ("!", ""), ("-", ""), ("", "!!"), ("", "[0]"), ("", ".x"), ("", "()"), ("", "?"), ("", "[1..]"), ("", "++"), ("$typeof(", ")"), ("(", " ?? 1)"), ("@", ""), ("$", ""), ("#", "")])
                ts[i] = o + ts[i] + c
        t = "".join(ts)
        m = s.weighted([(10, 0), (1, 1), (1, 2)])
        if m == 1 and t: t = t[:s.int(0, len(t))]
        if m == 2:
            for _ in range(s.int(1, 4)):
                i = s.int(0, len(t))
                t = t[:i] + chr(s.choice([0, 1, 9, 10, 34, 36, 39, 42, 47, 64, 92, 96, 123, 127, 0xe9, 0x202e, 0x1f600, s.draw(255)])) + t[i + s.draw(1):]
        return {"from": name, "flags": s.weighted([(5, 0), (4, 1), (1, 2), (1, 3), (1, 4), (1, 5)]), "text": t}

    def soften(self, s, ts, r, i, k, C):
        """A change that keeps the token classes or whole statements, so that most results parse."""
        if k <= 8:
            # another token of the same class, from here or another file
            for _ in range(12):
                c = cls(ts[i])
                if c: break
                i = r[s.int(0, len(r) - 1)]
            c = cls(ts[i])
            if not c: return
            if c in ("num", "str") and s.draw(1):
                ts[i] = s.choice(LITS)
                return
            if c == "type" and s.draw(1):
                ts[i] = s.choice(sorted(TYPEKW)) + s.choice(["", "", "*", "[]", "[2]", "[<2>]", "?", "[0]"])
                return
            if c == "T" and s.draw(2) == 0:
                ts[i] = s.choice(sorted(TYPEKW))
                return
            if c == "op":
                ts[i] = s.choice(sorted(OPS))
                return
            pool = ts if s.draw(3) else toks(C[s.int(0, len(C) - 1)][1])
            same = [x for x in pool if cls(x) == c]
            if same: ts[i] = same[s.int(0, len(same) - 1)]
            return
        ends = [j for j in r if ts[j] in (";", "}")]
        if len(ends) < 2: return
        a = s.int(0, len(ends) - 2)
        stmt = ts[ends[a] + 1:ends[a + 1] + 1]
        at = ends[s.int(0, len(ends) - 1)] + 1
        if k <= 10: ts[at:at] = stmt
        elif k == 11: del ts[ends[a] + 1:ends[a + 1] + 1]
        elif k == 12:
            o = toks(C[s.int(0, len(C) - 1)][1])
            oe = [j for j, x in enumerate(o) if x in (";", "}")]
            if len(oe) < 2: return
            b = s.int(0, len(oe) - 2)
            ts[at:at] = o[oe[b] + 1:oe[min(len(oe) - 1, b + s.int(1, 3))] + 1]
        elif k == 13: ts[at:at] = [" ", s.choice(SNIP), " "]
        elif k == 14:
            o, c = s.choice([("(", ")"), ("(int)(", ")"), ("&", ""), ("*", ""), ("!", ""), ("-", ""), ("", "!!"), ("", "[0]"), ("", ".x"), ("", "()"), ("", "[1..]"), ("", "++"), ("$typeof(", ")"), ("(", " ?? 1)"), ("~", ""), ("&&", ""), ("$sizeof(", ")"), ("$stringify(", ")"), ("", ".len"), ("", ".ptr"), ("", ".typeid"), ("", ".ordinal"), ("", "[^1]"), ("", "[:1]")])
            v = [j for j in r if cls(ts[j]) in ("v", "num", "str", "C", "$v", "#v")]
            if v:
                j = v[s.int(0, len(v) - 1)]
                ts[j] = o + ts[j] + c
        else:
            v = [j for j in r if cls(ts[j]) == "type" or cls(ts[j]) == "T"]
            if v:
                j = v[s.int(0, len(v) - 1)]
                ts[j] += s.choice(["*", "[]", "[2]", "[<2>]", "?", "[*]", ".typeid", ".sizeof", ".max", "{int}"])

    def nontrivial(self, c):
        return len(c["text"]) > 40

    def nt_rule(self):
        return "longer than 40 characters"

    def labels(self, c):
        return [" ".join(FLAGS[c["flags"]])]

    def run(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        with c3.Tmp() as d:
            with open(f"{d}/p.c3", "w", newline="", encoding="utf-8", errors="surrogateescape") as f: f.write(c["text"])
            cmd = [c3.c3c(), "compile-only", f"{d}/p.c3", "--threads", "1", "--ansi=no", "--use-stdlib=no", "--obj-out", d, "--build-dir", f"{d}/b", *FLAGS[c["flags"]]]
            r = c3.sh(cmd, cwd=d, timeout=30)
        return judge(r)

    def reduce(self, c):
        ts = toks(c["text"])
        n = len(ts)
        lines = c["text"].split("\n")
        m = max(1, len(lines) // 2)
        while m >= 1:
            for i in range(0, len(lines), m):
                yield dict(c, text="\n".join(lines[:i] + lines[i + m:]))
            m //= 2
        k = min(16, n)
        while k >= 1:
            for i in range(0, n, k):
                yield dict(c, text="".join(ts[:i] + ts[i + k:]))
            k //= 2
        if c["flags"] > 1: yield dict(c, flags=1)


def judge(r):
    t = r.text
    if r.timeout:
        return "the compiler did not finish within 30 s"
    a = re.search(r"(unexpected error: [^\n]*|Assertion `[^\n]*|^LLVM ERROR[^\n]*|terminate called[^\n]*)", t, re.M)
    if r.code < 0 or a:
        return f"the compiler crashed ({r.how()}): {a.group(1)[:300] if a else t[-400:]}"
    if r.code != 0 and "No output files were generated" in t and ") Error" not in t:
        return None
    if r.code != 0 and not re.search(r"\.c3:\d+(:\d+)?\) Error", t):
        return f"rejected ({r.how()}) without a located error: {t[:300]}"
    if r.code == 0 and re.search(r"\) Error:", t):
        return f"reported an error but exited with 0: {t[-300:]}"
    return None


class C16(pbt.Check):
    id = "C16"
    rule = "longer than 40 characters"
    assumptions = ["one file per case, without the standard library"]
    families = [Mutants()]


CHECK = C16()
