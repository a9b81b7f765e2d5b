"""C24: $exec, $include and project scripts act only under the trust level that permits them."""
import os, json
from concurrent.futures import ThreadPoolExecutor
from vf import pbt, c3

TRUST = [[], ["--trust=none"], ["--trust=include"], ["--trust=full"]]
CONDS = [("", True), ("@if(true)", True), ("@if(false)", False), ("@if($defined(Foo))", True), ("@if($defined(Fooo))", False), ("@if(1 + 1 == 3)", False), ("@if(!$defined(Fooo))", True)]
VERBS = ["compile", "compile-only", "static-lib"]
SCRIPT = """touch "$1"
n=$2; v=$3; shift 3
read -r l
[ -n "$l" ] || l=0
printf '\\nfn int v%s() @export("v%s") { return %s * 100 + %s; }\\n' "$n" "$n" "$v" "$l"
"""


def marks(d):
    return sorted(f for p, _, fs in os.walk(d) for f in fs if f.startswith("mark"))


class Sources(pbt.Family):
    """A tree of directives; each has a place, a condition and children (in the included file or in the output of the command)."""
    name = "sources"
    quick, thorough = 700, 20000
    batch = 8

    def gen(self, s):
        n = [0]

        def node(depth):
            i = n[0]; n[0] += 1
            kind = s.weighted([(4, "exec"), (4, "include"), (1, "cmd")])
            return {"i": i, "kind": kind, "cond": s.weighted([(4, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6)]), "v": s.int(0, 20), "in": s.int(0, 9), "fin": s.bool(),
                    "kids": [node(depth + 1) for _ in range(s.weighted([(3, 0), (2, 1), (1, 2)]))] if depth < 2 and kind != "cmd" else []}
        places = s.int(1, 3)
        secs = [[s.choice(["main", "module", "generic", "file"]), [node(0) for _ in range(s.int(1, 2))]] for _ in range(places)]
        return {"secs": secs, "trust": s.draw(3), "verb": s.weighted([(3, 0), (2, 1), (1, 2)]), "flags": s.draw(2)}

    def all(self, c):
        """(node, live, reached only through included or produced text that was permitted)"""
        t = c["trust"]
        out = []

        def go(x, live, gen):
            live = live and CONDS[x["cond"]][1]
            out.append((x, live, gen))
            for k in x["kids"]: go(k, live, gen)
        for place, ns in c["secs"]:
            for x in ns: go(x, True, place == "generic")
        return out

    def valid(self, c):
        A = [x for x, *_ in self.all(c)]
        return bool(A) and len({x["i"] for x in A}) == len(A)

    def nontrivial(self, c):
        return len(self.all(c)) > 1

    def labels(self, c):
        yield "trust " + (TRUST[c["trust"]] or ["default"])[0]
        yield VERBS[c["verb"]]
        for place, ns in c["secs"]: yield "in " + place
        for x, live, g in self.all(c):
            yield x["kind"]
            if not live: yield "disabled"

    def one(self, c):
        files = {}

        def text(x, own=""):
            cond = CONDS[x["cond"]][0]
            if x["kind"] == "include":
                body = f'fn int v{x["i"]}() @export("v{x["i"]}") {{ return {x["v"]}; }}\n' + "".join(text(k) for k in x["kids"])
                files[f"inc{x['i']}.txt"] = body
                return f'$include("inc{x["i"]}.txt") {cond};\n'
            if x["kind"] == "cmd":
                return f'$exec("touch mark{x["i"]}") {cond};\n'
            kids = "".join(text(k) for k in x["kids"])
            files[f"k{x['i']}"] = kids
            files[f"s{x['i']}.sh"] = SCRIPT + f'cat k{x["i"]}\n'
            inp = f', "{x["in"]}\\n"' if x["fin"] else ""
            return f'$exec("sh", {{ "s{x["i"]}.sh", "mark{x["i"]}", {x["i"]}, {x["v"]} }}{inp}) {cond};\n'
        main = "module a;\nstruct Foo { int a; }\n"
        srcs = ["a.c3"]
        tail = ""
        gens = []
        for j, (place, ns) in enumerate(c["secs"]):
            t = "".join(text(x) for x in ns)
            if place == "main": main += t
            elif place == "module": tail += f"module m{j};\nstruct Foo {{ int a; }}\n{t}"
            elif place == "generic": tail += f"module g{j}{{Type}};\nstruct Foo {{ Type a; }}\n{t}"; gens.append(j); main = main.replace("struct Foo", f"import g{j};\nstruct Foo", 1) + f"fn void use{j}() @export(\"use{j}\") {{ g{j}::Foo{{int}} x; }}\n"
            else:
                files[f"f{j}.c3"] = f"module f{j};\nstruct Foo {{ int a; }}\n{t}"
                srcs.append(f"f{j}.c3")
        A = self.all(c)
        lv = [x for x, live, g in A if live]
        allowed = {0: set(), 1: set(), 2: {"include"}, 3: {"include", "exec", "cmd"}}[c["trust"]]
        denied = [x for x in lv if x["kind"] not in allowed]
        files["a.c3"] = main + ('fn int main() { return 0; }\n' if c["verb"] != 2 else "fn void base() @export(\"base\") { }\n") + tail
        with c3.Tmp() as d:
            os.chmod(d, 0o755)
            w = f"{d}/w"; os.mkdir(w)
            for f, t in files.items():
                with open(f"{w}/{f}", "w") as h: h.write(t)
            verb = VERBS[c["verb"]]
            cmd = [c3.c3c(), verb, *srcs, "--threads", "1", "--ansi=no", "--use-stdlib=no", "--build-dir", f"{d}/b", "--obj-out", f"{d}/o", *TRUST[c["trust"]], *[[], ["-O2"], ["--safe=no"]][c["flags"]]]
            if verb != "compile-only": cmd += ["-o", f"{d}/out"]
            before = sorted(os.listdir(w))
            r = c3.sh(cmd, cwd=w, timeout=60)
            got = marks(d)
            new = [f for f in sorted(os.listdir(w)) if f not in before and not f.startswith("mark")]
            what = f"[{' '.join(TRUST[c['trust']]) or 'no --trust'}, {verb}]\n" + files["a.c3"]
            want = sorted(f"mark{x['i']}" for x in lv if x["kind"] != "include")
            if r.timeout or r.code < 0: return f"the compiler {r.how()}: {r.text[-300:]}; {what}"
            if c["trust"] < 3 and got: return f"commands ran without --trust=full: {got}; {what}"
            if new: return f"unexpected files were written: {new}; {what}"
            if [m for m in got if m not in want]: return f"commands behind a false condition ran: {got}, not {want}; {what}"
            if denied:
                if r.code == 0: return f"{denied[0]['kind']} number {denied[0]['i']} was accepted without the trust it needs; {what}"
                if "not permitted" not in r.text: return f"rejected for another reason than the missing trust: {r.text[:300]}; {what}"
                return None
            if c["trust"] < 3 and len(lv) < len(A) and r.code:
                # A directive which is disabled may be refused as well.
                return None if "not permitted" in r.text else f"rejected: {r.text[:300]}; {what}"
            if r.code: return f"rejected although everything is permitted: {r.text[:400]}; {what}"
            if got != want: return f"the commands that ran left {got}, not {want}; {what}"
            plain = [x for x, live, g in A if live and not g and x["kind"] != "cmd"]
            if verb == "compile-only": return None
            if verb == "static-lib" and plain:
                with open(f"{d}/m.c", "w") as h:
                    h.write("#include <stdio.h>\n" + "".join(f"int v{x['i']}(void);\n" for x in plain) + "int main(void) { " + "".join(f'printf("%d ", v{x["i"]}());' for x in plain) + " return 0; }\n")
                r = c3.sh(["gcc", f"{d}/m.c", f"{d}/out.a", "-o", f"{d}/m"], cwd=d)
                if r.code: return f"the definitions are missing from the library: {r.text[:300]}; {what}"
                r = c3.sh([f"{d}/m"], cwd=d)
                want = " ".join(str(x["v"] if x["kind"] == "include" else x["v"] * 100 + (x["in"] if x["fin"] else 0)) for x in plain)
                if r.text.strip() != want: return f"the definitions give {r.text.strip()}, not {want}; {what}"
        return None

    def run(self, cases):
        with ThreadPoolExecutor(2) as ex:
            return list(ex.map(self.one, cases))

    def render(self, c):
        return c


PLAT = ["linux-x64", "macos-x64", "windows-x64", "linux-aarch64"]


class Projects(pbt.Family):
    name = "projects"
    quick, thorough = 350, 8000
    batch = 8

    def gen(self, s):
        ex = lambda: s.weighted([(2, 0), (1, 1), (1, 2)])
        libs = [{"exec": ex(), "plat": [[p, ex()] for p in PLAT if s.bool(1, 3)], "uses": [j for j in range(i) if s.bool(1, 3)], "ver": s.bool(1, 4)} for i in range(s.int(0, 3))]
        return {"libs": libs, "dep": [i for i in range(len(libs)) if s.bool(2, 3)], "tdep": [i for i in range(len(libs)) if s.bool(1, 4)],
                "exec": ex(), "targets": [ex() for _ in range(s.int(1, 3))], "build": s.draw(2), "trust": s.draw(3), "mode": s.weighted([(3, 0), (2, 1)])}

    def valid(self, c):
        n = len(c["libs"])
        return c["targets"] and all(i < n for i in c["dep"] + c["tdep"]) and all(j < i for i, l in enumerate(c["libs"]) for j in l["uses"])

    def nontrivial(self, c):
        return bool(c["libs"]) and len(self.expect(c)) > 0

    def labels(self, c):
        yield "trust " + (TRUST[c["trust"]] or ["default"])[0]
        yield ["project", "--lib"][c["mode"]]
        e = self.expect(c)
        yield "has scripts" if e else "no scripts"
        if any(m.startswith("markL") for m in e): yield "library scripts"

    def expect(self, c):
        e = []
        live = set()

        def use(i):
            if i in live: return
            live.add(i)
            for j in c["libs"][i]["uses"]: use(j)
        for i in c["dep"] + (c["tdep"] if c["mode"] == 0 else []): use(i)
        for i in live:
            l = c["libs"][i]
            if not any(p == "linux-x64" for p, _ in l["plat"]): continue
            e += [f"markL{i}_{k}" for k in range(l["exec"])]
            e += [f"markP{i}_{k}" for p, n in l["plat"] if p == "linux-x64" for k in range(n)]
        if c["mode"] == 0:
            t = c["build"] % len(c["targets"])
            e += [f"markG{k}" for k in range(c["exec"])] + [f"markT{t}_{k}" for k in range(c["targets"][t])]
        return sorted(e)

    def one(self, c):
        c = dict(c)
        c["libs"] = [dict(l) for l in c["libs"]]
        # Every library supports this platform, as a build with one that does not is refused.
        for l in c["libs"]:
            if not any(p == "linux-x64" for p, _ in l["plat"]): l["plat"] = [["linux-x64", 0]] + l["plat"]
        touch = lambda p, n: [f"touch {p}{k}" for k in range(n)]
        with c3.Tmp() as d:
            w = f"{d}/w"
            os.makedirs(f"{w}/src"); os.makedirs(f"{w}/libs")
            for i, l in enumerate(c["libs"]):
                os.mkdir(f"{w}/libs/l{i}.c3l")
                open(f"{w}/libs/l{i}.c3l/l.c3", "w").write(f"module l{i};\nfn int x() => {i};\n")
                m = {"provides": f"l{i}"}
                if l["ver"]: m["version"] = "1.0"
                if l["exec"]: m["exec"] = touch(f"markL{i}_", l["exec"])
                if l["uses"]: m["dependencies"] = [f"l{j}" for j in l["uses"]]
                m["targets"] = {p: ({"exec": touch(f"mark{'P' if p == 'linux-x64' else 'X'}{i}_", n)} if n else {}) for p, n in l["plat"]}
                json.dump(m, open(f"{w}/libs/l{i}.c3l/manifest.json", "w"))
            open(f"{w}/src/a.c3", "w").write("module a;\nfn int main() { return 0; }\n")
            tr = TRUST[c["trust"]]
            if c["mode"] == 0:
                p = {"langrev": "1", "version": "0.1.0", "sources": ["src/**"], "dependency-search-paths": ["libs"], "use-stdlib": False,
                     "script-dir": ".", "targets": {}}
                if c["dep"]: p["dependencies"] = [f"l{i}" for i in c["dep"]]
                if c["exec"]: p["exec"] = touch("markG", c["exec"])
                for t, n in enumerate(c["targets"]):
                    p["targets"][f"t{t}"] = {"type": "executable"}
                    if n: p["targets"][f"t{t}"]["exec"] = touch(f"markT{t}_", n)
                    if c["tdep"]: p["targets"][f"t{t}"]["dependencies"] = [f"l{i}" for i in c["tdep"] if i not in c["dep"]]
                json.dump(p, open(f"{w}/project.json", "w"))
                cmd = [c3.c3c(), "build", f"t{c['build'] % len(c['targets'])}", "--threads", "1", "--ansi=no", *tr]
            else:
                cmd = [c3.c3c(), "compile", "src/a.c3", "--use-stdlib=no", "--threads", "1", "--ansi=no", "-o", f"{d}/out", "--libdir", "libs", *[x for i in c["dep"] for x in ("--lib", f"l{i}")], *tr]
            r = c3.sh(cmd, cwd=w, timeout=60)
            got, want = marks(d), self.expect(c)
            what = f"{' '.join(cmd[1:])}; {json.dumps(c)}"
            if r.timeout or r.code < 0: return f"the compiler {r.how()}: {r.text[-300:]}; {what}"
            if c["trust"] < 3:
                if got: return f"scripts ran without --trust=full: {got}; {what}"
                if want and r.code == 0: return f"scripts were accepted without --trust=full; {what}"
                if want and "trust" not in r.text: return f"rejected for another reason: {r.text[:300]}; {what}"
                if not want and r.code: return f"rejected although nothing needs trust: {r.text[:300]}; {what}"
                return None
            if r.code: return f"rejected although scripts are trusted: {r.text[:400]}; {what}"
            if got != want: return f"the scripts that ran left {got}, not {want}; {what}"
        return None

    def run(self, cases):
        with ThreadPoolExecutor(2) as ex:
            return list(ex.map(self.one, cases))


class C24(pbt.Check):
    id = "C24"
    rule = "sources: at least 2 directives; projects: at least one library and one script that the build would run"
    families = [Sources(), Projects()]


CHECK = C24()
