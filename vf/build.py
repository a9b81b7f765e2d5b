"""Builds c3c from /repo's working tree, keyed by file *content* (never by mtime).

Objects and linked compilers are cached under CACHE by the hash of everything that
goes into them, so a changed tree always gets a freshly built compiler and an
unchanged one costs a few hundredths of a second.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VF_CACHE", os.path.join(VERIF, ".cache"))
LLVM = "/usr/lib/llvm-18"
JOBS = min(8, os.cpu_count() or 1)


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sources():
    """The .c files CMakeLists.txt puts into c3c (with LLVM, without TB)."""
    text = read(f"{REPO}/CMakeLists.txt").decode()
    text = re.sub(r"#[^\n]*", "", text)
    out = []
    for m in re.finditer(r"(add_executable|target_sources)\s*\(\s*c3c\b([^)]*)\)", text.replace("${CMAKE_BINARY_DIR}", "@BIN@")):
        for tok in m[2].split():
            if tok.endswith(".c") and "tilde" not in tok and not tok.endswith("hostinfo.c"):
                out.append(tok)
    if len(out) < 40:
        raise BuildError("could not read the source list from CMakeLists.txt")
    return sorted(set(out))


DEFS = "-DCURL_FOUND=1 -DLLVM_AVAILABLE=1 -DTB_AVAILABLE=0 -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS".split()
CFLAGS = "-gdwarf-3 -fno-exceptions -std=gnu11 -pthread -Wno-everything".split()
VARIANTS = {
    # as /opt/vp/build.sh: asserts on, -O1
    "dbg": (["-O1", "-g1"], []),
    # asserts + AddressSanitizer + UBSan for the robustness checks
    "san": (["-O1", "-g1", "-fsanitize=address,bounds,null,integer-divide-by-zero,unreachable,return,vla-bound,bool,array-bounds,builtin",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
            ["-fsanitize=address,undefined"]),
}


def _headers_key():
    hs = []
    for top in ("src", "wrapper", "dependencies"):
        for d, _, fs in os.walk(f"{REPO}/{top}"):
            for f in fs:
                if not f.endswith((".c", ".cpp")):
                    hs.append(os.path.join(d, f))
    return sha(*[x for p in sorted(hs) for x in (os.path.relpath(p, REPO), read(p))])


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))


def _llvm_libs():
    """The static libraries to link, as CMake computed them (llvm-config gives the same set)."""
    lc = f"{LLVM}/bin/llvm-config"
    libs = subprocess.run([lc, "--link-static", "--libs", "all"], capture_output=True, text=True).stdout.split()
    sysl = subprocess.run([lc, "--link-static", "--system-libs"], capture_output=True, text=True).stdout.split()
    if not libs:
        raise BuildError("llvm-config gave no libraries")
    return libs, sysl


def c3c(variant="dbg"):
    """Path of a c3c built from the current tree."""
    flags, ldflags = VARIANTS[variant]
    os.makedirs(f"{CACHE}/obj", exist_ok=True)
    os.makedirs(f"{CACHE}/bin", exist_ok=True)
    hk = _headers_key()
    srcs = sources() + ["dependencies/miniz/miniz.c", "wrapper/src/wrapper.cpp"]
    units = []
    for s in srcs:
        path = f"{REPO}/{s}"
        # __FILE__ matters in assert messages only; keep it relative and stable
        fl = DEFS + CFLAGS + (flags if s.startswith("src/") else ["-O1", "-g1"])
        units.append((s, path, fl, f"{CACHE}/obj/" + sha(variant, hk, s, read(path), " ".join(fl)) + ".o"))
    key = sha(*[u[3].rsplit("/", 1)[1] for u in units], " ".join(ldflags))
    exe = f"{CACHE}/bin/c3c-{variant}-{key}"
    if os.path.exists(exe):
        return exe
    with open(f"{CACHE}/lock-{variant}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        inc = tempfile.mkdtemp(prefix="vfinc", dir=CACHE)
        try:
            with open(f"{inc}/git_hash.h", "w") as f:
                f.write('#pragma once\n#define GIT_HASH "verif"\n')

            def one(u):
                s, path, fl, obj = u
                if os.path.exists(obj):
                    return
                cc = ["clang++-18", "-std=gnu++17", "-fno-rtti", "-Wno-everything", "-fno-exceptions"] if s.endswith(".cpp") else ["clang-18"]
                if s.endswith(".cpp"):
                    fl = [x for x in fl if not x.startswith("-std")]
                tmp = obj + f".{os.getpid()}.tmp"
                _run(cc + fl + [f"-I{LLVM}/include", f"-I{REPO}/src", f"-I{inc}", f"-I{REPO}/wrapper/include",
                                f"-I{REPO}/dependencies/miniz", "-isystem", "/usr/include/libxml2", f"-ffile-prefix-map={REPO}/=",
                                "-c", path, "-o", tmp])
                os.rename(tmp, obj)

            units.sort(key=lambda u: -os.path.getsize(u[1]))
            with ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(one, units))
            libs, sysl = _llvm_libs()
            lld = [f"{LLVM}/lib/liblld{x}.a" for x in ("COFF", "Wasm", "MinGW", "ELF", "MachO", "Common")]
            tmp = exe + f".{os.getpid()}.tmp"
            fuse = ["-fuse-ld=lld"] if shutil.which("ld.lld-18") or shutil.which("lld-18") else []
            _run(["clang++-18", "-pthread", *fuse, *ldflags, "-o", tmp, *[u[3] for u in units], "-Wl,--start-group", *lld,
                  f"-L{LLVM}/lib", *libs, "-Wl,--end-group", "-lcurl", "-lxml2", *sysl, "-lrt", "-ldl", "-lm"])
            os.rename(tmp, exe)
            _prune()
        finally:
            shutil.rmtree(inc, ignore_errors=True)
    return exe


def _prune():
    """Keep the cache small: the newest few compilers, and objects under 1.5 GB."""
    b = sorted((os.path.join(f"{CACHE}/bin", f) for f in os.listdir(f"{CACHE}/bin")), key=os.path.getmtime)
    for p in b[:-6]:
        os.unlink(p)
    o = sorted((os.path.join(f"{CACHE}/obj", f) for f in os.listdir(f"{CACHE}/obj")), key=os.path.getmtime)
    tot = sum(os.path.getsize(p) for p in o)
    for p in o:
        if tot < 1.5e9:
            break
        tot -= os.path.getsize(p)
        os.unlink(p)


def stdlib_key():
    fs = []
    for d, _, f in os.walk(f"{REPO}/lib"):
        fs += [os.path.join(d, x) for x in f]
    return sha(*[x for p in sorted(fs) for x in (os.path.relpath(p, REPO), read(p))])


if __name__ == "__main__":
    for v in sys.argv[1:] or ["dbg"]:
        print(c3c(v))
