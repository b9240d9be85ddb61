"""C08: sets."""
import random
from vt import *
from slotgen import Gen, SLOTS
from p_list import graph


class SGen(Gen):
    p_slot = 0.12

    def __init__(self, rng, nkeys=8, div=1):
        super().__init__(rng); self.nkeys, self.div = nkeys, div

    def fresh(self):
        return {}

    def dup(self, v):
        return dict(v)

    def x(self):
        return self.rng.randint(0, self.nkeys) * self.div + (self.rng.randint(0, 9) if self.div > 1 else 0)

    def k(self):
        return self.rng.randint(0, self.nkeys + 1)

    def ops(self, o):
        rng = self.rng
        live = [p for p in range(SLOTS) if self.kind[p] == "live"]
        none = [p for p in range(SLOTS) if self.kind[p] == "none"]
        w = rng.random()
        if w < 0.35:
            self.emit("set %d %s" % (o, " ".join(str(self.x()) for _ in range(rng.choice([1, 1, 2, 3])))))
        elif w < 0.45:
            self.emit("%s %d %d" % (rng.choice(["rem", "remo"]), o, self.k()))
        elif w < 0.55:
            self.emit("has %d %s" % (o, " ".join(str(self.k()) for _ in range(rng.choice([1, 2, 3])))))
        elif w < 0.68:
            self.emit("%s %d %d" % (rng.choice(["uni", "int", "dif"]), o, rng.choice(live)))
        elif w < 0.75 and none:
            r = none[0]
            self.emit("%s %d %d %d" % (rng.choice(["puni", "pint", "pdif"]), r, o, rng.choice(live)))
            self.kind[r] = "live"; self.v[r] = {}
        elif w < 0.8:
            self.emit("own %d %d %d" % (o, rng.randint(0, 40), rng.randint(0, 2)))
        elif w < 0.9:
            self.emit("cmp %d %d" % (o, rng.choice(live)))
        else:
            self.emit("query %d" % o)


def tcfg(div=1):
    return cfg_text(spec="TraceSpec", constants={"Slots": SLOTS, "Div": div}, postcondition="TraceAccepted", invariants=["TypeOK"])


def pairs(n):
    """every pair of subsets of 1..n: comparisons and all pure and in-place operations"""
    out = []
    for x in range(1 << n):
        for y in range(1 << n):
            l = ["new 0", "new 1"]
            for s, m in ((0, x), (1, y)):
                ks = [k + 1 for k in range(n) if m >> k & 1]
                l += ["set %d %d" % (s, k) for k in (ks if (x + y) % 2 else ks[::-1])]
            l += ["cmp 0 1", "cmp 1 0"]
            for f in ("puni", "pint", "pdif"):
                l += ["%s 2 0 1" % f, "cmp 2 0", "cmp 1 2", "query 2", "delete 2"]
            for f in ("uni", "int", "dif"):
                l += ["copy 2 0", "%s 2 1" % f, "query 2", "delete 2"]
            out.append(l)
    return out


# more items than 16 bits can count
HUGE = [["new 0", "mute 1", "bulk 0 66003 %d" % how, "bulkrem 0 66003 1001 %d" % h2, "mute 0", "query 0", "mute 1", "copy 1 0", "delete 0", "mute 0", "query 1", "mute 1", "has 1 40001", "delete 1", "mute 0", "new 1", "query 1"] for how, h2 in ((0, 1), (40507, 0))]


def long_script(rng, m):
    """two large sets grown and shrunk, then combined and compared"""
    s = ["new 0", "new 1", "mute 1"]
    for o in (0, 1):
        ks = list(range(1, 2 * m, 1 + o)) + list(range(2 * m, 2 * m + m // 2, 2))
        rng.shuffle(ks)
        ks = ks[:m]
        s += ["set %d %d" % (o, k) for k in ks] + ["rem %d %d" % (o, k) for k in ks[:m // 5]]
    s += ["mute 0", "query 0", "query 1", "cmp 0 1", "copy 2 0", "uni 2 1", "query 2", "cmp 0 2", "cmp 2 1", "int 2 1", "cmp 2 1", "dif 2 0", "query 2", "delete 2"]
    return s + ["pint 2 0 1", "query 2", "delete 2", "pdif 2 0 1", "query 2", "delete 2", "puni 2 0 1", "query 2", "dif 0 1", "query 0", "assign 1 2", "query 1"]


def run(conf):
    exe = build(conf.work, "set", "set.cpp")
    rng = random.Random(SEED * 7919 + 8)
    th = thorough()
    # small graph with two items of the same key, checked against the laws of the algebra
    consts = {"Slots": 2, "Items": "{100, 101, 200}" if not th else "{100, 101, 200, 300}", "MaxLen": 3, "Div": 100}
    cfg = cfg_text(constants=consts, invariants=["TypeOK", "Laws"], constraint="Small", view="View", action_constraint="EdgeOut")
    r = conf.model("MCSet", cfg, workers=1, edges=True)
    init = next(u for u, _, _ in r["edges"] if "live" not in u and "moved" not in u)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    sc = tour(r["edges"], init, 60)
    for ty in ("int", "tracked"):
        conf.batch("graph-" + ty, exe, sc, "SetTrace", tcfg(100), args=[ty, "div"])
    conf.batch("all-pairs", exe, pairs(4 if not th else 6), "SetTrace", tcfg(1), args=["int"])
    n, ln = (120, 100) if not th else (2500, 300)
    for name, args, div in (("plain", ["int"], 1), ("equal", ["int", "div"], 100), ("tracked", ["tracked", "div"], 100)):
        ss = [SGen(rng, rng.choice([3, 8, 30]), div).script(rng.randint(15, ln)) for _ in range(n)]
        conf.batch("random-" + name, exe, ss, "SetTrace", tcfg(div), args=args)
    for ty in ("i32", "i64", "u32", "u64", "f32", "f64", "i8"):
        conf.batch("wide-" + ty, exe, [SGen(rng, rng.choice([3, 8, 29]), 1).script(rng.randint(15, ln)) for _ in range(n // 4)], "SetTrace", tcfg(1), args=[ty, "wide"])
    conf.batch("random-block", exe, [SGen(rng, rng.choice([3, 8, 30]), 1).script(rng.randint(15, ln)) for _ in range(n // 4)], "SetTrace", tcfg(1), args=["block"])
    conf.batch("huge", exe, HUGE, "SetTrace", tcfg(1), args=["int"], chunk=1, heap="3g")
    conf.batch("long", exe, [long_script(rng, m) for m in ((150, 400) if not th else (150, 400, 1200))], "SetTrace", tcfg(1), args=["int"], chunk=1)


RUN = {"C08": run}
