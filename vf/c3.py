"""Running the c3c under test: scratch directories, compile/run helpers, harness servers."""
import os, shutil, signal, subprocess, tempfile, json, resource
from . import build

REPO = build.REPO
_scratch = None


class HarnessBroken(Exception):
    """A harness program made of valid C3 that uses public API only did not compile or start."""


class Fail(Exception):
    """A batch failed as a whole; the message says how."""


def init_scratch(tag):
    global _scratch
    base = os.environ.get("VF_TMP", "/tmp")
    _scratch = tempfile.mkdtemp(prefix=f"vf-{tag}-", dir=base)
    return _scratch


def drop_scratch():
    global _scratch
    if _scratch and "/vf-" in _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


def scratch():
    return _scratch


class Tmp:
    """A private directory, removed on exit."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=_scratch)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    except ValueError:
        pass


class Res:
    def __init__(self, code, out, err, timeout):
        self.code, self.out, self.err, self.timeout = code, out, err, timeout

    @property
    def text(self):
        return (self.out + self.err).decode("utf-8", "replace")

    def how(self):
        if self.timeout:
            return "did not finish within its time limit"
        if self.code < 0:
            return f"died of signal {-self.code}"
        return f"exit code {self.code}"


ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
       "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_container_overflow=0:detect_stack_use_after_return=0:allocator_may_return_null=1",
       "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1"}


def sh(cmd, cwd=None, stdin=b"", timeout=60, env=None):
    e = dict(ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd or _scratch, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=e, start_new_session=True, preexec_fn=_limits)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return Res(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return Res(-9, out, err, True)


_cc = {}


def c3c(variant="dbg"):
    if variant not in _cc:
        _cc[variant] = build.c3c(variant)
    return _cc[variant]


def stdlib():
    return f"{REPO}/lib"


def compile_(src, exe, flags=(), std=False, cwd=None, verb="compile", timeout=120, variant="dbg"):
    """Compiles source files (paths) to exe."""
    srcs = [src] if isinstance(src, str) else list(src)
    cmd = [c3c(variant), verb, *srcs, "-o", exe, "--threads", "1", "--ansi=no"]
    cmd += ["--stdlib", stdlib()] if std else ["--use-stdlib=no"]
    cmd += list(flags)
    return sh(cmd, cwd=cwd, timeout=timeout)


def batch_program(cases, make, check, flags=(), std=False, run_timeout=20, variant="dbg"):
    """Puts many cases in one program; on any trouble splits the batch until the culprit is alone.

    make(cases) -> source text.  check(cases, stdout) -> [None|str] (may raise Fail)."""
    def go(cs):
        try:
            with Tmp() as d:
                with open(f"{d}/p.c3", "w") as f:
                    f.write(make(cs))
                r = compile_(f"{d}/p.c3", f"{d}/p", flags, std, cwd=d, variant=variant)
                if r.code != 0 or not os.path.exists(f"{d}/p"):
                    raise Fail(f"c3c {' '.join(flags)} refused or failed on a valid program ({r.how()}):\n{r.text[-1500:]}")
                x = sh([f"{d}/p"], cwd=d, timeout=run_timeout)
                if x.code != 0:
                    raise Fail(f"the compiled program {x.how()}:\n{x.text[-800:]}")
                return check(cs, x.out.decode("utf-8", "replace"))
        except Fail as e:
            if len(cs) == 1:
                return [str(e)]
            h = len(cs) // 2
            return go(cs[:h]) + go(cs[h:])
    return go(cases) if cases else []


def harness(name, flags=("-O0", "-g0"), extra=(), variant="dbg", main=None):
    """Compiles /verif/harness/<name>.c3 against /repo's stdlib; cached by content."""
    hdir = f"{build.VERIF}/harness"
    srcs = [f"{hdir}/{name}.c3", f"{hdir}/hx.c3", *[f"{hdir}/{x}" for x in extra]]
    cc = c3c(variant)
    key = build.sha(os.path.basename(cc), build.stdlib_key(), *[build.read(s) for s in srcs], " ".join(flags))
    os.makedirs(f"{build.CACHE}/hx", exist_ok=True)
    exe = f"{build.CACHE}/hx/{name}-{key}"
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    with Tmp() as d:
        r = compile_(srcs, f"{d}/h", flags, std=True, cwd=d, variant=variant, timeout=300)
        if r.code != 0 or not os.path.exists(f"{d}/h"):
            raise HarnessBroken(f"harness {name} ({' '.join(flags)}): {r.how()}\n{r.text[-3000:]}")
        shutil.copy(f"{d}/h", exe + f".{os.getpid()}")
        os.rename(exe + f".{os.getpid()}", exe)
    fs = sorted((os.path.join(f"{build.CACHE}/hx", f) for f in os.listdir(f"{build.CACHE}/hx")), key=os.path.getmtime)
    for p in fs[:-120]:
        try:
            os.unlink(p)
        except FileNotFoundError:
            pass
    return exe


def serve(exe, texts, timeout=20, cwd=None, env=None):
    """Runs the harness on a batch of case texts (each ends in newline).

    The harness echoes '#<i>' before case i and prints the case's output lines after it.
    Returns [(lines, None) | (lines so far, how it died)]."""
    n = len(texts)
    out = [None] * n
    start = 0
    while start < n:
        inp = "".join(f"@ {i}\n{texts[i]}" for i in range(start, n)) + "@ -1\n"
        r = sh([exe], stdin=inp.encode(), timeout=timeout, cwd=cwd, env=env)
        cur = None
        lines = {}
        done = False
        for ln in r.out.decode("utf-8", "surrogateescape").split("\n"):
            if ln.startswith("#"):
                try:
                    cur = int(ln[1:])
                except ValueError:
                    continue
                if cur == -1:
                    done = True
                    break
                lines[cur] = []
            elif cur is not None:
                lines[cur].append(ln)
        for i, l in lines.items():
            out[i] = ([x for x in l if x != ""], None)
        if done and r.code == 0:
            break
        if not lines:
            for i in range(start, n):
                out[i] = ([], f"harness {r.how()} before any case: {r.text[-500:]}")
            break
        last = max(lines)
        out[last] = (out[last][0], f"harness {r.how()}: {r.err.decode('utf-8', 'replace')[:600]}")
        start = last + 1
    for i in range(n):
        if out[i] is None:
            out[i] = ([], "no output for this case")
    return out
