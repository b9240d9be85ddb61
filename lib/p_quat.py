"""C21: quaternions and matrices."""
import json, random
from vt import *

TCFG = cfg_text(spec="TraceSpec", postcondition="TraceAccepted")
ONE = ((0, 0), (0, 0), (0, 0), (64, 0))
AXES = [(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1) if (x, y, z) != (0, 0, 0)]


def turns(a):
    return {1: [0, 6, 12, 18, 24], 2: [0, 12, 24], 3: [0, 8, 16, 24]}[sum(abs(x) for x in a)]


def times(x, y):
    a, b = x[0] * y[0] + 2 * x[1] * y[1], x[0] * y[1] + x[1] * y[0]
    if a % 64 or b % 64:
        raise ValueError
    return a // 64, b // 64


def mul(p, q):
    def s(*ts):
        return tuple(sum(k * times(p[i - 1], q[j - 1])[n] for k, i, j in ts) for n in (0, 1))
    r = (s((1, 4, 1), (1, 1, 4), (1, 2, 3), (-1, 3, 2)), s((1, 4, 2), (1, 2, 4), (1, 3, 1), (-1, 1, 3)),
         s((1, 4, 3), (1, 3, 4), (1, 1, 2), (-1, 2, 1)), s((1, 4, 4), (-1, 1, 1), (-1, 2, 2), (-1, 3, 3)))
    if any(abs(c[0]) > 2 ** 16 or abs(c[1]) > 2 ** 9 for c in r):
        raise ValueError
    return r


def sq(q):
    return tuple(sum(times(c, c)[n] for c in q) for n in (0, 1))


def turned(a, k):
    n = sum(x * x for x in a)
    s = (0, 0) if k in (0, 24) else (64, 0) if n == 1 and k == 12 else (32, 0) if n == 3 else (0, 32)
    w = {0: (64, 0), 6: (0, 32), 8: (32, 0), 12: (0, 0), 16: (-32, 0), 18: (0, -32), 24: (-64, 0)}[k]
    return tuple((x * s[0], x * s[1]) for x in a) + (w,)


class QGen:
    def __init__(self, rng):
        self.rng = rng
        self.q = [None] + [ONE] * 4
        self.exact = [None] + [True] * 4
        self.err = [0] * 5                   # of roundings, which products add up

    def step(self):
        rng = self.rng
        k, a, b = (rng.randint(1, 4) for _ in range(3))
        w = rng.random()
        q = self.q
        if w < 0.02:
            q[k], self.exact[k] = ONE, True
            self.err[k] = 0
            return rng.choice(["default %d", "null %d"]) % k
        if w < 0.12:
            s = rng.choice([64, 64, 32, 8, 1])
            if rng.random() < 0.5:
                c = [rng.randint(-5, 5) * s for _ in range(4)]
            else:
                c = [rng.choice([-32, 32]) for _ in range(4)]
            q[k], self.exact[k] = tuple((x, 0) for x in c), True
            self.err[k] = 0
            return "set %d %s" % (k, " ".join(map(str, c)))
        if w < 0.28:
            ax = rng.choice(AXES)
            n = rng.choice(turns(ax))
            q[k], self.exact[k] = turned(ax, n), False
            self.err[k] = 1
            return "%s %d %d %d %d %d" % (rng.choice(["angle", "vector"]), k, *ax, n)
        if w < 0.3:
            q[k], self.exact[k] = q[a], self.exact[a]
            self.err[k] = self.err[a]
            return "copy %d %d" % (k, a)
        if w < 0.5:
            if self.err[a] + self.err[b] > 200:
                return None
            r = mul(q[a], q[b])
            q[k], self.exact[k] = r, self.exact[a] and self.exact[b]
            self.err[k] = self.err[a] + self.err[b] + 1
            return "mul %d %d %d" % (k, a, b)
        if w < 0.56:
            # which of both inverses is not specified: all that follows is possible with either
            q[k], self.exact[k] = tuple((-c[0], -c[1]) for c in q[a][:3]) + (q[a][3],), self.exact[a]
            self.err[k] = self.err[a]
            return "inv %d %d" % (k, a)
        if w < 0.62:
            return "size %d" % k if sq(q[k])[1] == 0 and sq(q[k])[0] < 2 ** 20 else None
        try:
            unit = sq(q[k]) == (64, 0)
        except ValueError:
            unit = False
        if not unit:
            return None
        if w < 0.8:
            return "turn %d %s" % (k, " ".join(str(rng.choice([0, 1, -1, 3, rng.randint(-12, 12)])) for _ in range(3)))
        if w < 0.87:
            return "axes %d" % k
        if w < 0.92:
            return "dirs %d" % k
        real = abs(q[k][3][0]) == 64
        if w < 0.96:
            return "readangle %d" % k if not real or self.exact[k] else None
        return "readaxis %d" % k if not real else None

    def script(self, n):
        sc = []
        while len(sc) < n:
            try:
                s = self.step()
            except ValueError:
                continue
            if s:
                sc.append(s)
        return sc


def qcommands(label, flip):
    op, x, y, z = json.loads(label)
    if op == "mul":
        return ["mul %d %d %d" % (x, y, z)]
    if op == "swap":
        return ["copy 3 1", "copy 1 2", "copy 2 3"]
    if op == "inv":
        return ["inv 1 1"]
    if op == "turn":
        return ["%s 4 %d %d %d %d" % ("vector" if flip else "angle", *x, y), "mul 1 1 4"]
    return ["axes 1", "dirs 2", "turn 1 1 2 3", "size 1"]


def mcommands(label, n, via):
    op, i, j, x = json.loads(label)
    if op == "write":
        return ["write 1 %d %d %d %d" % (i, j, via % 7, x)]
    return {"transpose": ["transpose 1"], "copy": ["copy 2 1"], "swap": ["copy 3 1", "assign 1 2", "copy 2 3"], "cmp": ["cmp 1 2"]}[op]


def mrand(rng, n, top):
    sc = []
    for _ in range(n):
        k = rng.randint(1, 3)
        w = rng.random()
        v = lambda: rng.choice([0, 1, -1, 2, 5, rng.randint(-top, top)]) if top != 1000 else rng.randint(0, 1000)
        if w < 0.08:
            sc.append("scalar %d %d" % (k, v()))
        elif w < 0.2:
            c = rng.choice([16, 16, 16, 12, 5, 2])
            sc.append("list %d %d %s" % (k, c, " ".join(str(v()) for _ in range(c))))
        elif w < 0.3:
            sc.append("buffer %d 16 %s" % (k, " ".join(str(v()) for _ in range(16))))
        elif w < 0.55:
            sc.append("write %d %d %d %d %d" % (k, rng.randrange(4), rng.randrange(4), rng.randrange(7), v()))
        elif w < 0.65:
            sc.append("%s %d %d" % (rng.choice(["copy", "assign"]), k, rng.randint(1, 3)))
        elif w < 0.8:
            sc.append("transpose %d" % k)
        else:
            sc.append("cmp %d %d" % (k, rng.randint(1, 3)))
    return sc


def run(conf):
    th = thorough()
    rng = random.Random(SEED * 7919 + 21)
    exe = build(conf.work, "quat", "quat.cpp")
    mexe = build(conf.work, "mat", "mat.cpp")
    jobs = []
    r = conf.model("MCQuat", cfg_text(invariants=["Algebra", "Rotation", "Described"]), edges=True, workers=8)
    one = canon(json.dumps([ONE, ONE]))
    t = tour(r["edges"], one, maxlen=14)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    jobs.append((("graph-quaternions", exe, [[c for n, l in enumerate(s) for c in qcommands(l, n % 2)] for s in t], "QuatTrace", TCFG), {}))
    jobs.append((("random-quaternions", exe, [QGen(rng).script(rng.randint(20, 60)) for _ in range(500 if not th else 20000)], "QuatTrace", TCFG), {}))
    reads = [["angle 1 %d %d %d %d" % (*a, k), "readangle 1", "readaxis 1", "axes 1", "dirs 1", "size 1", "vector 2 %d %d %d %d" % (*a, k), "readangle 2", "readaxis 2", "mul 3 1 2", "inv 4 1", "mul 3 4 1", "axes 3", "axes 4"]
             for a in AXES for k in turns(a) if k not in (0, 24)]
    jobs.append((("angles", exe, reads, "QuatTrace", TCFG), {}))
    for n, top in [(2, 1)] if not th else [(2, 1), (2, 2)]:
        r = conf.model("MCMat", cfg_text(constants={"N": n, "Top": top}, invariants=["Laws"]), edges=True, workers=8)
        t = tour(r["edges"], canon(json.dumps([[0] * n * n] * 2)), maxlen=60)
        conf.cov["graph_edges_replayed"] += len(r["edges"])
        jobs.append((("graph-matrices-%d" % n, mexe, [[c for k, l in enumerate(s) for c in mcommands(l, n, k)] for s in t], "MatTrace", TCFG), {"args": ["f"]}))
    for ty, top in (("f", 1000000), ("d", 1000000), ("b", 127), ("u", 1000), ("i", 10 ** 9), ("l", 10 ** 9)):
        jobs.append((("random-matrices-" + ty, mexe, [mrand(rng, rng.randint(10, 40), top) for _ in range(60 if not th else 2000)], "MatTrace", TCFG), {"args": [ty]}))
    conf.par(jobs, n=3)


RUN = {"C21": run}
