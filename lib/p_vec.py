"""C20: vectors."""
import json, math, random
from vt import *

TCFG = cfg_text(spec="TraceSpec", postcondition="TraceAccepted")
MAX = 2 * 10 ** 9          # what the harness shows as itself
TYPES = "fdiul"
OPS = ["add", "sub", "mul", "div"]


def isf(T):
    return T in "fd"


def apply(T, op, a, b):
    """The component's result in the unit of the type, or None where the operation is not specified (inexact, overflow)."""
    u = 64 if isf(T) else 1
    if op == "add":
        r = a + b
    elif op == "sub":
        r = a - b
    elif op == "mul":
        if abs(a * b) > MAX or a * b % u:
            return None
        r = a * b // u
    else:
        if b == 0 or abs(a) * u > MAX:
            return None
        if isf(T):
            if a * 64 % b:
                return None
            r = a * 64 // b
        else:
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    return r if fits(T, r) else None


def fits(T, r):
    if T == "f":
        return abs(r) < 2 ** 24
    if T == "u":
        return 0 <= r <= MAX
    return abs(r) <= MAX


def dots(T, v, w):
    lim = 2 ** 24 if T == "f" else MAX
    s = 0
    for x, y in zip(v, w):
        s += x * y
        if abs(x * y) > lim or abs(s) > lim or T == "u" and s < 0:
            return None
    return s


class VGen:
    def __init__(self, rng):
        self.rng = rng
        self.rf = {T: {n: {k: [0] * n for k in (1, 2, 3)} for n in (2, 3, 4)} for T in TYPES}

    def comp(self, T):
        rng = self.rng
        if isf(T):
            v = rng.choice([0, 64, -64, 32, -32, 1, -1, 96, 128, 192, 256, -320, 640, rng.randint(-300, 300), 64 * rng.randint(-20, 20)])
            if rng.random() < 0.05:
                v = rng.choice([-1, 1]) * 2 ** rng.randint(5, 22)
            return v
        v = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 12, rng.randint(0, 50), rng.randint(0, 1000)])
        if rng.random() < 0.07:
            v = rng.choice([MAX - 1, MAX - 2, 2 ** 30, 65535, 65536, 46340])
        return -v if T != "u" and rng.random() < 0.4 else v

    def vec(self, T, n):
        rng = self.rng
        w = rng.random()
        if w < 0.12:
            return [self.comp(T)] * n
        if w < 0.2 and isf(T):
            p = {2: [(3, 4), (5, 12), (8, 6)], 3: [(1, 2, 2), (2, 3, 6), (4, 4, 7)], 4: [(1, 1, 1, 1), (2, 2, 2, 2), (1, 1, 3, 5), (1, 3, 3, 9)]}[n]
            p = list(rng.choice(p))
            rng.shuffle(p)
            s = rng.choice([64, 32, 16, 128, 1])
            return [rng.choice([-1, 1]) * x * s for x in p]
        if w < 0.25:
            return [0] * n
        if w < 0.35:
            r = [0] * n
            r[rng.randrange(n)] = self.comp(T)
            return r
        return [self.comp(T) for _ in range(n)]

    def step(self):
        rng = self.rng
        T = rng.choice("ffffddiiiiulu")
        n = rng.choice([2, 3, 4])
        R = self.rf[T][n]
        k, a, b = (rng.choice([1, 2, 3]) for _ in range(3))
        w = rng.random()
        o = rng.choice(OPS)
        h = "%s %d" % (T, n)

        def all_(xs, ys):
            r = [apply(T, o, x, y) for x, y in zip(xs, ys)]
            return None if None in r else r
        if w < 0.16:
            v = self.vec(T, n)
            R[k] = v
            return "set %s %d %d %s" % (h, k, rng.choice([0, 0, 1, 2]), " ".join(map(str, v)))
        if w < 0.2:
            i, x = rng.randint(1, n), self.comp(T)
            R[k] = R[k][:i - 1] + [x] + R[k][i:]
            return "setc %s %d %d %d %d" % (h, k, i, rng.randrange(4), x)
        if w < 0.22:
            R[k] = list(R[a])
            return "copy %s %d %d" % (h, k, a)
        if w < 0.36:
            r = all_(R[a], R[b])
            if r is None:
                return None
            if rng.random() < 0.5:
                R[a] = r
                return "cmpd %s %s %d %d %d" % (h, o, a, a, b)
            R[k] = r
            return "bin %s %s %d %d %d" % (h, o, k, a, b)
        if w < 0.52:
            s = self.comp(T)
            c = rng.choice(["vecs", "svec", "cmpds"])
            r = all_([s] * n, R[a]) if c == "svec" else all_(R[a], [s] * n)
            if r is None:
                return None
            if c == "cmpds":
                k = a
            R[k] = r
            return "%s %s %s %d %d %d" % (c, h, o, k, a, s)
        if w < 0.6:
            i = rng.randint(1, n)
            c = rng.choice(["vecc", "cmpdc"])
            if rng.random() < 0.7:
                b = a
            r = all_(R[a], [R[b][i - 1]] * n)
            if r is None:
                return None
            if c == "cmpdc":
                k = a
            R[k] = r
            return "%s %s %s %d %d %d %d" % (c, h, o, k, a, b, i)
        if w < 0.64:
            if T == "u":
                return None
            R[k] = [-x for x in R[a]]
            return "neg %s %d %d" % (h, k, a)
        if w < 0.7:
            if rng.random() < 0.3:
                return "sq %s %d" % (h, a) if dots(T, R[a], R[a]) is not None else None
            return "dot %s %d %d" % (h, a, b) if dots(T, R[a], R[b]) is not None else None
        if w < 0.76:
            n = rng.choice([2, 3])
            v, w_ = self.rf[T][n][a], self.rf[T][n][b]
            idx = [(1, 2), (2, 0), (0, 1)] if n == 3 else [(0, 1)]
            r = []
            for i, j in idx:
                d = dots(T, [v[i], v[j]], [w_[j], -w_[i]]) if T != "u" else None
                if d is None or isf(T) and d % 64 or T == "f" and abs(d // 64) >= 2 ** 24:
                    return None
                r.append(d // 64 if isf(T) else d)
            self.rf[T][3][k] = r if n == 3 else [0, 0] + r
            return "cross %s %d %d %d %d" % (T, n, k, a, b)
        if w < 0.84:
            if rng.random() < 0.5:
                # differ in few components
                v = list(R[a])
                for _ in range(rng.randint(0, 2)):
                    v[rng.randrange(n)] = self.comp(T)
                R[b] = v
                return ["set %s %d 0 %s" % (h, b, " ".join(map(str, v))), "cmp %s %d %d" % (h, a, b), "cmp %s %d %d" % (h, b, a)]
            return "cmp %s %d %d" % (h, a, b)
        if w < 0.86:
            T = rng.choice("fd")
            v = self.rf[T][3][a]
            return "near %s 3 %d" % (T, a) if dots(T, v, v) is not None else None
        if w < 0.9 and isf(T):
            if rng.random() < 0.5:
                d = dots(T, R[a], R[a])
                if d is None or math.isqrt(d) ** 2 != d:
                    return None
                return "size %s %d" % (h, a)
            if not any(R[a]) or max(map(abs, R[a])) > 2 ** 19 or sum(x * x for x in R[a]) > 2 ** 30:
                return None
            return "norm %s %d" % (h, a)
        if w < 0.95:
            U = rng.choice(TYPES)
            v = self.rf[U][n][a]
            r = []
            for x in v:
                if isf(U) and not isf(T):
                    y = abs(x) // 64 * (1 if x >= 0 else -1)
                    if T == "u" and x < 0:
                        return None
                else:
                    y = x * 64 if isf(T) and not isf(U) else x
                if not fits(T, y):
                    return None
                r.append(y)
            R[k] = r
            return "conv %s %d %s %d %d" % (T, n, U, k, a)
        if w < 0.97:
            n = rng.choice([3, 4])
            x = 0 if rng.random() < 0.3 else self.comp(T)
            self.rf[T][n][k] = list(self.rf[T][n - 1][a]) + [x]
            return "ext %s %d %d %d %d %d" % (T, n, k, a, x, rng.randrange(2))
        if w < 0.98:
            self.rf[T][3][k] = self.rf[T][4][a][:3]
            return "drop %s 4 %d %d" % (T, k, a)
        v, w_ = self.rf["f"][4][a], self.rf["f"][4][b]
        if any(apply("f", o, x, y) is None for x, y in zip(v, w_)):
            return None
        return "simd %s %d %d %d" % (o, a, b, rng.randrange(16))

    def script(self, n):
        sc = []
        while len(sc) < n:
            s = self.step()
            if s:
                sc += s if isinstance(s, list) else [s]
        return sc


def command(T, n, label):
    op, x, y, z = json.loads(label)
    u = 64 if isf(T) else 1
    h = "%s %d" % (T, n)
    if op == "cmpd":
        return ["cmpd %s %s %d %d %d" % (h, x, y, y, z)]
    if op == "bin":
        return ["bin %s %s 3 %d %d" % (h, x, y, z)]
    if op in ("svec1", "cmpds"):
        return ["%s %s %s 1 1 %d" % (op.rstrip("1"), h, x, y * u)]
    if op in ("svec", "vecs"):
        return ["%s %s %s 3 1 %d" % (op, h, x, y * u)]
    if op == "cmpdc":
        return ["cmpdc %s %s 1 1 1 %d" % (h, x, y)]
    if op == "vecc":
        return ["vecc %s %s 3 1 1 %d" % (h, x, y)]
    if op == "setc":
        return ["setc %s 1 %d %d %d" % (h, y, (y + z) % 4, z * u)]
    if op == "swap":
        return ["copy %s 3 1" % h, "copy %s 1 2" % h, "copy %s 2 3" % h]
    if op == "neg":
        return ["neg %s 2 1" % h]
    if op == "cross":
        return ["cross %s 3 1 2" % h]
    return [{"dot": "dot %s 1 2", "cmp": "cmp %s 1 2", "sq": "sq %s 1"}[op] % h]


def run(conf):
    th = thorough()
    rng = random.Random(SEED * 7919 + 20)
    exe = build(conf.work, "vec", "vec.cpp")
    opt = build(conf.work, "vecO2", "vec.cpp", san=(), opt="-O2") if th else None
    jobs = []
    for n, vals, types in [(2, (-2, -1, 0, 1, 2) if th else (-1, 0, 2), "if"), (3, (-1, 0, 1), "ifdl" if th else "i")] + ([(4, (0, 1), "fi"), (2, (-3, -1, 0, 2), "fidl")] if th else [(4, (-1, 0), "f")]):
        for T in types:
            r = conf.model("MCVec", cfg_text(constants={"N": n, "NV": "{%s}" % ", ".join(str(v + 3) for v in vals), "Off": 3, "T": '"%s"' % T}, invariants=["Laws"]), edges=True, workers=8)
            scs = [[c for l in s for c in command(T, n, l)] for s in tour(r["edges"], canon(json.dumps([[0] * n, [0] * n])), maxlen=150)]
            conf.cov["graph_edges_replayed"] += len(r["edges"])
            jobs.append((("graph-%s%d" % (T, n), exe, scs, "VecTrace", TCFG), {}))
    cons = [["const %d zero" % n] for n in (2, 3, 4)] + [["const %d unit" % n] for n in (2, 3, 4)] + [["const 3 " + c] for c in ("right", "left", "up", "down", "forward", "backward")]
    jobs.append((("constants", exe, cons, "VecTrace", TCFG), {}))
    rnd = [VGen(rng).script(rng.randint(20, 60)) for _ in range(600 if not th else 12000)]
    jobs.append((("random", exe, rnd, "VecTrace", TCFG), {}))
    if opt:
        jobs.append((("random-O2", opt, rnd[:2000], "VecTrace", TCFG), {}))
    conf.par(jobs, n=2)


RUN = {"C20": run}
