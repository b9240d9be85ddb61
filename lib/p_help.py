"""C22: integer math and memory helpers."""
import json, random
from vt import *

TCFG = cfg_text(spec="TraceSpec", postcondition="TraceAccepted")
BCFG = cfg_text(spec="TraceSpec", postcondition="TraceAccepted", constants={"Base": 256, "Limbs": 9})
ITYPES = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
TYPES = ITYPES + ["f32", "f64"]
TRIPLES = ["i32,i8,i64", "i64,i8,i32", "u64,u8,u16", "u32,u16,u8", "i32,u8,i16", "i16,i8,i32", "f64,i8,i32", "f64,f32,i16", "u16,u8,u64"]


def lims(t):
    b = int(t[1:])
    if t[0] == "f":
        return (-2 ** 24, 2 ** 24) if b == 32 else (-2 ** 53, 2 ** 53)
    return (-2 ** (b - 1), 2 ** (b - 1) - 1) if t[0] == "i" else (0, 2 ** b - 1)


def fits(t, v):
    lo, hi = lims(t)
    return lo <= v <= hi


def common(ts):
    """The limits of the type in which operands of these types are compared."""
    if any(t[0] == "f" for t in ts):
        return "f64" if "f64" in ts else "f32"
    ws = [("i32" if int(t[1:]) < 32 else t) for t in ts]
    w = max(int(t[1:]) for t in ws)
    return ("u%d" if "u%d" % w in ws else "i%d") % w


class HGen:
    def __init__(self, rng):
        self.rng = rng

    def val(self, t):
        """A number of the type: small, near a power of two, near a limit, any."""
        rng = self.rng
        lo, hi = lims(t)
        while True:
            w = rng.random()
            if w < 0.25:
                v = rng.randint(-20, 20)
            elif w < 0.6:
                v = rng.choice([-1, 1]) * 2 ** rng.randint(0, 64) + rng.randint(-3, 3)
            elif w < 0.8:
                v = rng.choice([lo, hi]) + rng.randint(-4, 4)
            else:
                v = rng.randint(lo, hi)
            if lo <= v <= hi:
                return v

    def near(self, t, v):
        for _ in range(9):
            w = v + self.rng.choice([0, 1, -1, self.rng.randint(-300, 300)])
            if fits(t, w):
                return w
        return self.val(t)

    def step(self):
        rng = self.rng
        w = rng.random()
        if w < 0.25:
            t = rng.choice(TYPES)
            n = rng.choice([2, 2, 3, 4, 5, 6])
            v = [self.val(t)]
            while len(v) < n:
                v.append(self.near(t, rng.choice(v)) if rng.random() < 0.6 else self.val(t))
            rng.shuffle(v)
            return "%s %s %s" % (rng.choice(["min", "max"]), t, " ".join(map(str, v)))
        if w < 0.5:
            ts = rng.choice(TRIPLES).split(",") if rng.random() < 0.5 else [rng.choice(TYPES), rng.choice(TYPES)]
            v = []
            for t in ts:
                v.append(self.near(t, rng.choice(v)) if v and rng.random() < 0.5 else self.val(t))
            op = rng.choice(["min", "max"])
            # comparisons in which C++ keeps every operand, and results the type has
            if not all(fits(common([a, b]), x) for i, (a, x) in enumerate(zip(ts, v)) for b in ts[:i] + ts[i + 1:]):
                return None
            if not fits(ts[0], min(v) if op == "min" else max(v)):
                return None
            return "%s %s %s" % (op, ",".join(ts), " ".join(map(str, v)))
        if w < 0.6:
            t = rng.choice(TYPES)
            v = self.val(t)
            return "abs %s %d" % (t, v) if fits(t, abs(v)) else None
        if w < 0.75:
            t = rng.choice(TYPES)
            u = rng.choice(ITYPES)
            n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, rng.randint(0, 64)])
            hi = lims(t)[1]
            m = 2 if n > 40 else round(hi ** (1 / n)) if n else 9
            v = rng.choice([0, 1, -1, 2, -2, 3, m, m - 1, m + 1, -m, rng.randint(-min(m, 10 ** 9), min(m, 10 ** 9))])
            return "pow %s %d %s %d" % (t, v, u, n) if fits(t, v) and fits(t, v ** n) else None
        t = rng.choice(ITYPES)
        v = self.val(t)
        if w < 0.83:
            return "log2 %s %d" % (t, v) if v > 0 else None
        k = rng.randint(0, min(63, int(t[1:])))
        if rng.random() < 0.6:
            v = v // 2 ** k * 2 ** k + rng.choice([0, 0, 1, -1, 2 ** k - 1])
        d = v // 2 ** k * 2 ** k
        if not fits(t, v):
            return None
        if rng.random() < 0.5:
            return "down %s %d %d" % (t, v, k) if fits(t, d) else None
        return "up %s %d %d" % (t, v, k) if fits(t, d + 2 ** k) else None

    def script(self, n):
        sc = []
        while len(sc) < n:
            s = self.step()
            if s:
                w = s.split()
                if w[0] in ("min", "max", "abs") and set(w[1].split(",")) <= {"f32", "f64"} and self.rng.random() < 0.7:
                    s = "unit %d %s" % (2 ** self.rng.randint(1, 30), s)
                sc.append(s)
        return sc

    def memory(self, n, L=None):
        rng = self.rng
        L = L or rng.choice([1, 7, 16, 33, 64])
        vals = rng.choice([[0, 255], [0, 1, 127, 128, 255], list(range(256))])
        sc = ["bytes " + "".join("%02x" % rng.choice(vals) for _ in range(L))]
        while len(sc) < n:
            w = rng.random()
            k = rng.choice([0, 1, 2, 8, L // 2, L, rng.randint(0, L)])
            k = min(k, L)
            a = rng.choice([0, L - k, rng.randint(0, L - k)])
            b = rng.choice([0, L - k, rng.randint(0, L - k), max(0, a - 1), min(L - k, a + 1)])
            if w < 0.2:
                sc.append("set %d %d" % (rng.randrange(L), rng.choice(vals)))
            elif w < 0.5:
                sc.append("mov %d %d %d" % (b, a, k))
            elif w < 0.7:
                if a + k <= b or b + k <= a:
                    sc.append("copy %d %d %d" % (b, a, k))
            else:
                sc.append("cmp %d %d %d" % (a, b, k))
        return sc

    def elements(self, kind, n, L=None):
        """L: a long range, most of it in use"""
        rng = self.rng
        long = L is not None
        L = L or rng.choice([1, 3, 6, 12, 30])
        c = [-1] * L
        sc = ["cells %s %d" % (kind, L)]
        if long:
            k = L - rng.choice([1, 5, 257, 300]) if L > 600 else L // 2
            i = rng.choice([0, L - k, rng.randint(0, L - k)])
            c[i:i + k] = range(1, k + 1)
            sc.append("makes %d %d 1" % (i, k))
            for _ in range(2):      # towards the end, and back
                for b in (L - k, 0):
                    if b != i:
                        sc.append("emove %d %d %d" % (b, i, k)); v = c[i:i + k]; c[i:i + k] = [-1] * k; c[b:b + k] = v; i = b
        while len(sc) < n:
            w = rng.random()
            k = rng.choice([0, 1, 2, L // 2, rng.randint(0, L)])
            k = min(k, L)
            a, b = rng.randint(0, L - k), rng.randint(0, L - k)
            alive = lambda i: all(x != -1 for x in c[i:i + k])
            dead = lambda i: all(x == -1 for x in c[i:i + k])
            disj = a + k <= b or b + k <= a
            if w < 0.3:
                i = rng.randrange(L)
                if c[i] == -1:
                    x = rng.randint(1, 999)
                    c[i] = x
                    sc.append("make %d %d" % (i, x))
            elif w < 0.37:
                if dead(a):
                    c[a:a + k] = [0] * k
                    sc.append("default %d %d" % (a, k))
            elif w < 0.5:
                if alive(a):
                    c[a:a + k] = [-1] * k
                    sc.append("destroy %d %d" % (a, k))
            elif w < 0.75:
                if alive(a) and all(c[i] == -1 or a <= i < a + k for i in range(b, b + k)):
                    v = c[a:a + k]
                    c[a:a + k] = [-1] * k
                    c[b:b + k] = v
                    sc.append("emove %d %d %d" % (b, a, k))
            elif kind == "moveonly":
                continue
            elif w < 0.88:
                if alive(a) and dead(b):
                    c[b:b + k] = c[a:a + k]
                    sc.append("ccopy %d %d %d" % (b, a, k))
            elif disj and alive(a) and alive(b):
                c[b:b + k] = c[a:a + k]
                sc.append("ecopy %d %d %d" % (b, a, k))
        return sc


def exhaustive(th):
    """Every argument of eight bits."""
    sc = []
    for t in ("i8", "u8"):
        lo, hi = lims(t)
        for v in range(lo, hi + 1):
            if fits(t, abs(v)):
                sc.append("abs %s %d" % (t, v))
            if v > 0:
                sc.append("log2 %s %d" % (t, v))
            for k in range(0, 9):
                d = v // 2 ** k * 2 ** k
                if fits(t, d):
                    sc.append("down %s %d %d" % (t, v, k))
                if fits(t, d + 2 ** k):
                    sc.append("up %s %d %d" % (t, v, k))
            for n in range(0, 8):
                if fits(t, v ** n):
                    sc.append("pow %s %d u8 %d" % (t, v, n))
            if th:
                for w in range(lo, hi + 1):
                    sc += ["min %s %d %d" % (t, v, w), "max %s %d %d" % (t, v, w)]
    # every power of two and its neighbours, every alignment
    for t in ITYPES:
        lo, hi = lims(t)
        for e in range(0, 64):
            for v in (2 ** e - 1, 2 ** e, 2 ** e + 1, 1 - 2 ** e, -2 ** e, -2 ** e - 1):
                if not fits(t, v):
                    continue
                if v > 0:
                    sc.append("log2 %s %d" % (t, v))
                if fits(t, abs(v)):
                    sc.append("abs %s %d" % (t, v))
                for k in range(0, 64, 1 if th else 5):
                    d = v // 2 ** k * 2 ** k
                    if fits(t, d):
                        sc.append("down %s %d %d" % (t, v, k))
                    if fits(t, d + 2 ** k):
                        sc.append("up %s %d %d" % (t, v, k))
    return [sc[i:i + 200] for i in range(0, len(sc), 200)]


def mathcmd(frm, label):
    op, y = json.loads(label)
    x = int(frm)
    if op in ("inc", "dec"):
        return None
    out = []
    for t in TYPES if op != "pow" else ["i8", "i32", "i64", "f32"]:
        if t[0] == "u" and min(x, y) < 0 or t[0] == "f" and op in ("down", "up", "log2"):
            continue
        if op in ("min", "max"):
            out.append("%s %s %d %d" % (op, t, x, y))
        elif op == "pow":
            if fits(t, x ** y):
                out.append("pow %s %d i32 %d" % (t, x, y))
        elif op in ("down", "up"):
            d = x // 2 ** y * 2 ** y + (2 ** y if op == "up" else 0)
            if fits(t, d):
                out.append("%s %s %d %d" % (op, t, x, y))
        else:
            out.append("%s %s %d" % (op, t, x))
    return out


def run(conf):
    th = thorough()
    rng = random.Random(SEED * 7919 + 22)
    exe = build(conf.work, "help", "help.cpp")
    opt = build(conf.work, "helpO2", "help.cpp", san=(), opt="-O2")
    jobs = []
    frac = [["unit 4 %s %s %d" % (op, t, v) for op in ("abs",) for t in ("f32", "f64") for v in range(-20, 21)]
            + ["unit 8 %s %s %d %d" % (op, t, v, w) for op in ("min", "max") for t in ("f32", "f64", "f64,f32") for v in range(-9, 10, 2) for w in range(-8, 10, 3)]]
    B = lambda *a, **k: jobs.append((a, k))
    # numbers
    small = dict(Base=4, Limbs=4, Top=20 if not th else 60, Exps="{0, 1, 2, 3}", MaxK=4)
    r = conf.model("MCBig", cfg_text(constants=small, invariants=["Arith", "Functions"]), edges=True, workers=8)
    scs = [c for f, l, _ in r["edges"] for c in (mathcmd(f, l) or [])]
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    conf.model("MCBig", cfg_text(constants=dict(Base=2, Limbs=7, Top=12, Exps="{0, 1, 2}", MaxK=3), invariants=["Arith", "Functions"]), workers=8)
    B("graph-math", exe, [scs[i:i + 200] for i in range(0, len(scs), 200)], "BigTrace", BCFG)
    ex = exhaustive(th) + frac
    B("every-argument", exe, ex, "BigTrace", BCFG)
    B("every-argument-O2", opt, ex if th else ex[::4], "BigTrace", BCFG)
    B("random-math", exe, [HGen(rng).script(100) for _ in range(80 if not th else 4000)], "BigTrace", BCFG)
    B("random-math-O2", opt, [HGen(rng).script(100) for _ in range(20 if not th else 1000)], "BigTrace", BCFG)
    # bytes
    L = 3 if not th else 4
    r = conf.model("MCMem", cfg_text(constants={"L": L, "Top": 2, "Elements": "FALSE"}, invariants=["Laws"]), edges=True, workers=8)
    t = tour(r["edges"], canon(json.dumps([1] * L)), maxlen=150)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    hexs = {1: "01", 2: "ff"}

    def bcmd(l):
        op, x, y, z = json.loads(l)
        return "set %d %d" % (x, {1: 1, 2: 255}[y]) if op == "set" else "%s %d %d %d" % (op, x, y, z)
    B("graph-bytes", exe, [["bytes " + "01" * L] + [bcmd(l) for l in s] for s in t], "MemTrace", TCFG)
    # elements
    r = conf.model("MCMem", cfg_text(constants={"L": 4 if th else 3, "Top": 2, "Elements": "TRUE"}, invariants=["Laws"]), edges=True, workers=8)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    L = 4 if th else 3

    def ecmd(l):
        op, x, y, z = json.loads(l)
        return "%s %d %d" % (op, x, y) if op in ("make", "default", "destroy") else "%s %d %d %d" % (op, x, y, z)
    for kind in ("tracked", "moveonly", "int", "assigned", "plain"):
        es = [e for e in r["edges"] if kind != "moveonly" or json.loads(e[1])[0] not in ("ccopy", "ecopy")]
        t = tour(es, canon(json.dumps([-1] * L)), maxlen=150)
        B("graph-" + kind, exe, [["cells %s %d" % (kind, L)] + [ecmd(l) for l in s] for s in t], "MemTrace", TCFG)
        B("random-" + kind, exe, [HGen(rng).elements(kind, rng.randint(10, 60)) for _ in range(60 if not th else 3000)], "MemTrace", TCFG)
    B("random-bytes", exe, [HGen(rng).memory(60) for _ in range(60 if not th else 3000)], "MemTrace", TCFG)
    # ranges that no counter of 8 or 16 bits can hold
    def block(n):
        """every operation on n bytes, and a difference at the far end"""
        L = 2 * n + 3
        h = "".join("%02x" % rng.randrange(256) for _ in range(L))
        x = int(h[2 * n - 2:2 * n], 16)
        return ["bytes " + h, "copy %d 0 %d" % (n + 2, n), "cmp 0 %d %d" % (n + 2, n), "set %d %d" % (n - 1, x ^ 128), "cmp 0 %d %d" % (n + 2, n), "cmp %d 0 %d" % (n + 2, n), "cmp 0 %d %d" % (n + 2, n - 1),
                "copy 1 %d %d" % (n + 2, n), "mov 3 1 %d" % (L - 4), "mov 0 2 %d" % (L - 2), "mov %d 1 %d" % (n + 1, n + 1)]
    B("long-bytes", exe, [block(n) for n in (255, 256, 257, 1000, 4096, 4097) * (4 if th else 1)], "MemTrace", TCFG)
    B("huge-bytes", exe, [block(n) for n in (32768, 65535, 65536, 66001)], "MemTrace", TCFG, chunk=2)

    def many(kind, n):
        L = 2 * n + 1
        s = ["cells %s %d" % (kind, L), "makes 1 %d 3" % n, "emove 0 1 %d" % n, "emove 2 0 %d" % n, "emove %d 2 %d" % (n + 1, n), "emove 0 %d %d" % (n + 1, n)]
        if kind != "moveonly":
            s += ["ccopy %d 0 %d" % (n + 1, n), "destroy 0 %d" % n, "makes 0 %d %d" % (n, n + 7), "ecopy 0 %d %d" % (n + 1, n), "destroy %d %d" % (n + 1, n)]
        return s + ["default %d %d" % (n + 1, n), "destroy 0 %d" % n, "destroy %d %d" % (n + 1, n)]
    for kind in ("tracked", "moveonly", "int", "assigned", "plain"):
        B("long-" + kind, exe, [many(kind, n) for n in (255, 256, 257, 300, 1025, 5000)], "MemTrace", TCFG, chunk=3)
        B("mixed-" + kind, exe, [HGen(rng).elements(kind, 16, ln) for ln in (257, 300, 700) * (4 if th else 1)], "MemTrace", TCFG, chunk=3)
    B("huge-elements", exe, [many(kind, 65537) for kind in ("tracked", "assigned", "plain")], "MemTrace", TCFG, chunk=1)
    B("random-bytes-O2", opt, [HGen(rng).memory(60) for _ in range(20 if not th else 500)], "MemTrace", TCFG)
    conf.par(jobs)


RUN = {"C22": run}
