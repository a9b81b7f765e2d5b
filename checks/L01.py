"""L01: the sequence containers against list models, over operation histories."""
from vf import lib


class Invalid(Exception):
    pass


def need(c):
    if not c:
        raise Invalid()


def br(l): return "[ " + "".join(f"{v} " for v in l) + "]"
def b(x): return "1" if x else "0"
EMPTY = "!builtin::NO_MORE_ELEMENT"


class Hist(lib.LibFamily):
    """A family of histories: a case is {op: container, t: element type, head: [...], ops: [[name, args...]...]}."""
    harness = "l01"
    batch = 60

    def start(self, c): raise NotImplementedError
    def gen_head(self, s): raise NotImplementedError
    def gen_op(self, s, st): raise NotImplementedError
    def header(self, c): return [c["op"], c["t"]] + c["head"]
    def first(self, c, st): return ""
    def final(self, c, st): return ""
    maxops = 40

    def gen(self, s):
        c = self.gen_head(s)
        c["ops"] = []
        st = self.start(c)
        for _ in range(s.int(1, s.choice([6, 15, self.maxops]))):
            o = self.gen_op(s, st)
            if o is None:
                continue
            try:
                self.step(c, st, o)
            except Invalid:
                continue
            c["ops"].append(o)
        return c

    def want(self, c):
        st = self.start(c)
        r = [self.first(c, st)]
        for o in c["ops"]:
            r.append(self.step(c, st, o))
        r.append(self.final(c, st))
        return " ".join(r)

    def valid(self, c):
        try:
            self.want(c)
            return True
        except (Invalid, IndexError):
            return False

    def text(self, c):
        return " ".join(map(str, self.header(c) + [len(c["ops"])] + [x for o in c["ops"] for x in o])) + "\n"

    def labels(self, c):
        return [c["op"], c["op"] + ":" + c["t"]] + sorted({"op:" + c["op"] + ":" + o[0] for o in c["ops"]})

    def nontrivial(self, c):
        return len(c["ops"]) >= 3


def val(s, t):
    return s.weighted([(8, lambda: s.draw(5)), (2, lambda: s.draw(80))])() if t == "c" else \
        s.weighted([(8, lambda: s.draw(5)), (2, lambda: s.draw(100000)), (1, lambda: -s.draw(5))])()


def rem(a, n):  # C remainder
    return abs(a) % n * (-1 if a < 0 else 1)


class Arrays(Hist):
    """List and ElasticArray."""
    name = "list"
    quick, thorough = 20000, 300000
    cap = None

    def gen_head(self, s):
        t = s.choice("icxp")
        mode = s.draw(2)
        if mode == 0:
            head = [0, s.choice([0, 1, 2, 3, 4, 8, 16, 20])]
        else:
            n = s.int(mode - 1, 16)
            head = [mode, n] + [val(s, t) for _ in range(n)]
        return {"op": "list", "t": t, "head": head}

    def start(self, c):
        self.cur = c["t"]
        return [list(c["head"][2:]), []]

    def final(self, c, st):
        return "0 0"

    OPS = ["push"] * 6 + ["pop", "popf", "first", "last", "clear", "rmat", "rev", "pushf", "ins", "ins", "set", "setop", "get", "rml",
           "rmf", "swap", "rmif", "retif", "rmtest", "rettest", "addall", "addarr", "opush", "opush", "oclear", "arr", "idx", "ridx",
           "eq", "has", "rmli", "rmfi", "rmi", "rmall", "len", "each"]
    EXTRA = ["reserve"]

    def gen_op(self, s, st):
        l, o = st
        op = s.choice(self.OPS + self.EXTRA * 2)
        t = self.cur
        n = len(l)
        v = lambda: val(s, t)
        if op in ("push", "pushf", "opush", "idx", "ridx", "has", "rmli", "rmfi", "rmi", "tpush", "tpushf"):
            return [op, v()]
        if op in ("rmat", "get"):
            return [op, s.draw(n - 1)] if n else None
        if op in ("ins", "tins"):
            return [op, s.draw(n), v()]
        if op in ("set", "setop"):
            return [op, s.draw(n - 1), v()] if n else None
        if op == "swap":
            return [op, s.draw(n - 1), s.draw(n - 1)] if n else None
        if op in ("rmif", "retif"):
            return [op, s.draw(2)]
        if op in ("rmtest", "rettest"):
            return [op, s.draw(6)]
        if op in ("addarr", "arrlim"):
            k = s.draw(s.choice([3, 16]))
            return [op, k] + [v() for _ in range(k)]
        if op == "reserve":
            return [op, s.draw(40)]
        if op == "clear" and s.bool(2, 3):
            return None
        return [op]

    def gen(self, s):
        return super().gen(s)

    def step(self, c, st, o):
        l, oth = st
        op, a = o[0], o[1:]
        cap = self.capof(c)
        n = len(l)
        r = ""
        if op in ("push", "pushf", "ins", "tpush", "tpushf", "tins"):
            ix = n if "pushf" not in op else 0
            if "ins" in op:
                ix = a[0]
                need(ix <= n)
            if cap and n >= cap:
                need(op[0] == "t")
                r = "!mem::OUT_OF_MEMORY"
            else:
                l.insert(ix, a[-1])
                r = "ok" if op[0] == "t" else ""
        elif op == "pop": r = str(l.pop()) if l else EMPTY
        elif op == "popf":
            need(not cap or l)  # a precondition of ElasticArray's
            r = str(l.pop(0)) if l else EMPTY
        elif op == "rml":
            r = "ok" if l else EMPTY
            del l[-1:]
        elif op == "rmf":
            r = "ok" if l else EMPTY
            del l[:1]
        elif op == "first": r = str(l[0]) if l else EMPTY
        elif op == "last": r = str(l[-1]) if l else EMPTY
        elif op == "clear": l.clear()
        elif op == "rmat":
            need(a[0] < n)
            del l[a[0]]
        elif op == "rev": l.reverse()
        elif op in ("set", "setop"):
            need(a[0] < n)
            l[a[0]] = a[1]
        elif op == "get":
            need(a[0] < n)
            r = f"{l[a[0]]} " * 3
        elif op == "swap":
            need(a[0] < n and a[1] < n)
            l[a[0]], l[a[1]] = l[a[1]], l[a[0]]
        elif op in ("rmif", "retif", "rmtest", "rettest"):
            p = (lambda v: rem(v, 3) == a[0] % 3) if "if" in op else (lambda v: v < a[0])
            keep = [v for v in l if p(v) == (op[:3] == "ret")]
            r = str(n - len(keep))
            l[:] = keep
        elif op == "addall":
            need(not cap or n + len(oth) <= cap)
            l += oth
        elif op == "addarr":
            need(not cap or n + a[0] <= cap)
            l += a[1:]
        elif op == "opush":
            need(not cap or len(oth) < cap)
            oth.append(a[0])
        elif op == "oclear": oth.clear()
        elif op == "arr":
            x = "( " + "".join(f"{v} " for v in l) + ") "
            r = x * 3
        elif op == "idx": r = str(l.index(a[0])) if a[0] in l else "!builtin::NOT_FOUND"
        elif op == "ridx": r = str(n - 1 - l[::-1].index(a[0])) if a[0] in l else "!builtin::NOT_FOUND"
        elif op == "eq": r = b(l == oth)
        elif op == "has": r = b(a[0] in l)
        elif op in ("rmli", "rmfi"):
            r = b(a[0] in l)
            if a[0] in l:
                del l[l.index(a[0]) if op == "rmfi" else n - 1 - l[::-1].index(a[0])]
        elif op == "rmi":
            r = str(l.count(a[0]))
            l[:] = [v for v in l if v != a[0]]
        elif op == "rmall":
            l[:] = [v for v in l if v not in oth]
        elif op == "len": r = f"{n} {b(not l)} {n}"
        elif op == "each":
            r = " ".join(map(str, l)) + " " + " ".join(f"{k} {l[k]}" for k in range(n - 1, -1, -1))
        elif op in ("addlim", "arrlim"):
            x = oth if op == "addlim" else a[1:]
            fit = min(cap - n, len(x))
            l += x[:fit]
            r = str(len(x) - fit)
        elif op == "reserve": pass
        else:
            raise Invalid()
        return r + " " + br(l)

    def capof(self, c): return None


class Elastic(Arrays):
    name = "elastic"
    quick, thorough = 12000, 100000
    EXTRA = ["tpush", "tpushf", "tins", "addlim", "arrlim"]

    def gen_head(self, s):
        return {"op": "elastic", "t": s.choice("icp"), "head": []}

    def start(self, c):
        self.cur = c["t"]
        return [[], []]

    def final(self, c, st): return ""
    def capof(self, c): return {"i": 8, "c": 5, "p": 13}[c["t"]]


class Linked(Hist):
    name = "linked"
    quick, thorough = 12000, 100000

    def gen_head(self, s): return {"op": "linked", "t": s.choice("icp"), "head": []}
    def start(self, c): return []
    def final(self, c, st): return "0"

    def gen_op(self, s, l):
        op = s.choice(["push"] * 4 + ["pushf", "pushf", "pop", "popf", "first", "last", "clear", "rmat", "ins", "ins", "set", "rml", "rmf", "rmi", "rmfi", "rmli", "len"])
        n = len(l)
        if op in ("push", "pushf", "rmi", "rmfi", "rmli"):
            return [op, val(s, "c")]
        if op == "rmat":
            return [op, s.draw(n - 1)] if n else None
        if op == "ins":
            return [op, s.draw(n), val(s, "c")]
        if op == "set":
            return [op, s.draw(n - 1), val(s, "c")] if n else None
        return [op]

    def step(self, c, l, o):
        op, a = o[0], o[1:]
        n = len(l)
        r = ""
        if op == "push": l.append(a[0])
        elif op == "pushf": l.insert(0, a[0])
        elif op in ("pop", "rml"):
            r = (str(l[-1]) if op == "pop" else "ok") if l else EMPTY
            del l[-1:]
        elif op in ("popf", "rmf"):
            r = (str(l[0]) if op == "popf" else "ok") if l else EMPTY
            del l[:1]
        elif op == "first": r = (str(l[0]) if l else EMPTY) + " " + (str(l[0]) if l else EMPTY)
        elif op == "last": r = (str(l[-1]) if l else EMPTY) + " " + (str(l[-1]) if l else EMPTY)
        elif op == "clear":
            l.clear()
            r = "0"
        elif op == "rmat":
            need(a[0] < n)
            del l[a[0]]
        elif op == "ins":
            need(a[0] <= n)
            l.insert(a[0], a[1])
        elif op == "set":
            need(a[0] < n)
            l[a[0]] = a[1]
        elif op == "rmi":
            r = str(l.count(a[0]))
            l[:] = [v for v in l if v != a[0]]
        elif op in ("rmfi", "rmli"):
            r = b(a[0] in l)
            if a[0] in l:
                del l[l.index(a[0]) if op == "rmfi" else n - 1 - l[::-1].index(a[0])]
        elif op == "len": r = f"{n} {b(not l)}"
        n = len(l)
        r += " [ " + "".join(f"{v} " for v in l) + "| " + "".join(f"{v} " for v in l[::-1]) + f"] {n} {n}"
        if n:
            r += f" {l[-1]} {l[n // 2]}"
        return r


class Ring(Hist):
    name = "ring"
    quick, thorough = 12000, 100000

    def gen_head(self, s): return {"op": "ring", "t": s.choice("icp"), "head": []}
    def start(self, c): return []

    def gen_op(self, s, l):
        op = s.choice(["push"] * 4 + ["pop", "get", "get", "read", "read", "write"])
        if op == "push": return [op, val(s, "c")]
        if op == "get": return [op, s.draw(len(l) - 1)] if l else None
        if op == "read": return [op, s.draw(max(0, len(l) - s.draw(1))), s.draw(9)]
        if op == "write":
            k = s.draw(s.choice([3, 16]))
            return [op, k] + [val(s, "c") for _ in range(k)]
        return [op]

    def step(self, c, l, o):
        cap = {"i": 5, "c": 8, "p": 3}[c["t"]]
        op, a = o[0], o[1:]
        r = ""
        if op == "push": l.append(a[0])
        elif op == "write": l += a[1:]
        elif op == "pop": r = str(l.pop()) if l else EMPTY
        elif op == "get":
            need(a[0] < len(l))
            r = str(l[a[0]])
        elif op == "read":
            need(a[0] < cap)
            x = l[a[0]:a[0] + a[1]]
            r = f"{len(x)} " + " ".join(map(str, x))
        del l[:-cap]
        return f"{r} {len(l)}"


class Queue(Hist):
    name = "queue"
    quick, thorough = 12000, 100000
    maxops = 60

    def gen_head(self, s): return {"op": s.choice(["pqmin", "pqmax"]), "t": s.choice("ip"), "head": [s.draw(20)]}
    def start(self, c): return []
    def final(self, c, st): return "0"

    def gen_op(self, s, l):
        op = s.choice(["push"] * 5 + ["pop", "pop", "first", "rm", "rm"])
        if op == "push": return [op, s.draw(s.choice([4, 30, 1000]))]
        if op == "rm": return [op, s.choice(l)] if l else None
        return [op]

    def step(self, c, l, o):
        op, a = o[0], o[1:]
        r = ""
        if op == "push": l.append(a[0])
        elif op == "rm":
            if a[0] in l:
                l.remove(a[0])
        else:
            r = EMPTY
            if l:
                m = min(l) if c["op"] == "pqmin" else max(l)
                r = str(m)
                if op == "pop":
                    l.remove(m)
        return f"{r} {len(l)} {b(not l)}"


class AnyList(Hist):
    name = "anylist"
    quick, thorough = 15000, 150000

    def gen_head(self, s): return {"op": "any", "t": "", "head": [s.choice([0, 1, 4, 16, 30])]}
    def header(self, c): return ["any", "-"] + c["head"]
    def start(self, c): return [[], []]
    def final(self, c, st): return "0"

    def gen_op(self, s, st):
        l, o = st
        n = len(l)
        t = s.choice("ilcp")
        op = s.choice(["push"] * 5 + ["pushf", "ins", "ins", "set", "opush", "opush", "addall", "pop", "popf", "first", "last", "get", "cpop", "cpopf",
                      "tpop", "tpopf", "rpop", "rpopf", "clear", "rmat", "rev", "rml", "rmf", "swap", "reserve", "rmif", "retif", "rmtest", "rettest"])
        v = val(s, "c")
        if op in ("push", "pushf", "opush"): return [op, t, v]
        if op in ("ins", "set"): return [op, t, s.draw(n), v]
        if op in ("pop", "popf", "first", "last"):
            if l and s.bool(4, 5):
                t = l[-1 if op in ("pop", "last") else 0][0]
            return [op, t]
        if op == "get":
            if not l: return None
            k = s.draw(n - 1)
            return [op, l[k][0] if s.bool(4, 5) else t, k]
        if op == "rmat": return [op, t, s.draw(n - 1)] if n else None
        if op == "swap": return [op, t, s.draw(n - 1), s.draw(n - 1)] if n else None
        if op == "reserve": return [op, t, s.draw(40)]
        if op in ("rmif", "retif"): return [op, t, s.draw(2)]
        if op in ("rmtest", "rettest"): return [op, t, s.draw(6)]
        if op == "clear" and s.bool(2, 3): return None
        return [op, t]

    def step(self, c, st, o):
        l, oth = st
        op, t, a = o[0], o[1], o[2:]
        n = len(l)
        e = lambda x: x[0] + str(x[1])
        r = ""
        if op == "push": l.append((t, a[0]))
        elif op == "pushf": l.insert(0, (t, a[0]))
        elif op == "opush": oth.append((t, a[0]))
        elif op == "ins":
            need(a[0] <= n)
            l.insert(a[0], (t, a[1]))
        elif op == "set":
            need(a[0] <= n)
            l[a[0]:a[0] + 1] = [(t, a[1])]
        elif op == "addall": l += oth
        elif op in ("pop", "popf", "first", "last"):
            if not l:
                r = EMPTY if op[0] == "p" else EMPTY + " " + EMPTY
            else:
                k = -1 if op in ("pop", "last") else 0
                x = l[k]
                r = e(x) if x[0] == t else "!builtin::TYPE_MISMATCH"
                if op[0] == "p":
                    del l[k]
                else:
                    r += " " + e(x)
        elif op == "get":
            need(a[0] < n)
            x = l[a[0]]
            r = (e(x) if x[0] == t else "!builtin::TYPE_MISMATCH") + f" {e(x)} {e(x)}"
        elif op in ("cpop", "tpop", "rpop", "cpopf", "tpopf", "rpopf"):
            r = e(l.pop(0 if op[-1] == "f" else -1)) if l else EMPTY if op[0] == "t" else "none"
        elif op == "clear": l.clear()
        elif op == "rmat":
            need(a[0] < n)
            del l[a[0]]
        elif op == "rev": l.reverse()
        elif op in ("rml", "rmf"):
            need(n)
            del l[0 if op == "rmf" else -1]
        elif op == "swap":
            need(a[0] < n and a[1] < n)
            l[a[0]], l[a[1]] = l[a[1]], l[a[0]]
        elif op in ("rmif", "retif", "rmtest", "rettest"):
            p = (lambda v: rem(v[1], 3) == a[0] % 3) if "if" in op else (lambda v: v[1] < a[0])
            keep = [v for v in l if p(v) == (op[:3] == "ret")]
            r = str(n - len(keep))
            l[:] = keep
        alloc = len(l) + len(oth)
        return f"{r} [ " + "".join(e(x) + " " for x in l) + f"] {self.live(c, st, alloc)}"

    def live(self, c, st, alloc):
        return "*"

    def compare(self, c, g):
        # The live block count covers the elements and at most two entry arrays.
        w = " ".join(self.want(c).split()).split()
        g = g.split()
        size = 0
        for i, (x, y) in enumerate(zip(g, w)):
            if y == "*":
                x = "*"
            if x != y:
                return lib.diff(c, " ".join(g), " ".join(w))
        if len(g) != len(w):
            return lib.diff(c, " ".join(g), " ".join(w))
        st = self.start(c)
        live = [int(x) for x, y in zip(g, w) if y == "*"]
        for k, o in enumerate(c["ops"]):
            self.step(c, st, o)
            m = len(st[0]) + len(st[1])
            if not m <= live[k] <= m + 2:
                return f"{live[k]} live blocks after operation {k} {o} with {m} elements"
        return None


class Ranges(lib.LibFamily):
    name = "range"
    harness = "l01"
    quick, thorough = 6000, 100000
    batch = 200
    T = {"i": (-2 ** 31, 2 ** 31 - 1), "l": (-2 ** 63, 2 ** 63 - 1), "c": (0, 255)}

    def gen(self, s):
        t = s.choice("ilc")
        lo, hi = self.T[t]
        a, e = s.inum({"i": 32, "l": 64, "c": 8}[t], t != "c"), s.inum({"i": 32, "l": 64, "c": 8}[t], t != "c")
        if s.bool():
            e = max(lo, min(hi, a + s.int(-3, 12)))
        if e - a + 1 >= 2 ** 64:
            e -= 1
        q = [max(lo, min(hi, s.choice([a, e]) + s.int(-2, 2))) for _ in range(s.draw(6))]
        return {"op": s.choice(["range", "xrange"]), "t": t, "a": a, "e": e, "q": q}

    def valid(self, c):
        n = c["e"] - c["a"] + (c["op"] == "range")
        return n < 2 ** 64

    def text(self, c):
        return " ".join(map(str, [c["op"], c["t"], c["a"], c["e"], len(c["q"])] + c["q"])) + "\n"

    def want(self, c):
        n = max(0, c["e"] - c["a"] + (c["op"] == "range"))
        top = c["a"] + n
        r = [str(n)] + [b(c["a"] <= q < top) for q in c["q"]] + [str(c["a"] + k) for k in range(min(n, 8))]
        if n:
            r.append(str(top - 1))
        return " ".join(r)


class Pointers(lib.LibFamily):
    name = "compact"
    harness = "l01"
    quick, thorough = 500, 5000

    def gen(self, s):
        return {"op": "ptr", "v": [s.draw(1) for _ in range(s.draw(30))]}

    def text(self, c):
        return f"ptr p {len(c['v'])} " + " ".join(map(str, c["v"])) + "\n"

    def want(self, c):
        z, k = c["v"].count(0), sum(c["v"])
        return f"{k} {z} {k} " + "1 " * k + "0"


class L01(lib.LibCheck):
    id = "L01"
    rule = "a case is one history on one container; non-trivial with at least three operations (ranges and compaction: any case); distinct by the whole history"
    assumptions = ["operations outside a method's contract (indices past the end, pushing to a full ElasticArray) are not generated"]
    families = [Arrays(), Elastic(), Linked(), Ring(), Queue(), AnyList(), Ranges(), Pointers()]


CHECK = L01()
