"""C10: storage goes back to where it came from."""
import random
from vt import *
from slotgen import Gen, SLOTS
import p_array, p_list, p_tree, p_set, p_map, p_function, p_string

KINDS = ("array", "list", "tree", "set", "map")


def tcfg(owned):
    return cfg_text(spec="TraceSpec", constants={"Slots": SLOTS, "Owned": "TRUE" if owned else "FALSE"}, postcondition="TraceAccepted")


class SGen(Gen):
    def __init__(self, rng, owned):
        super().__init__(rng); self.owned = owned

    def step(self):
        rng = self.rng
        if not self.owned:
            return super().step()
        o = rng.randrange(SLOTS)
        live = [p for p in range(SLOTS) if self.kind[p] == "live"]
        if self.kind[o] == "none":
            if live and rng.random() < 0.5:
                self.emit("copy %d %d" % (o, rng.choice(live)))
            else:
                self.emit("new %d" % o)
            self.kind[o] = "live"
        elif rng.random() < 0.15:
            self.emit("assign %d %d" % (o, rng.choice(live)))
        elif rng.random() < 0.06:
            self.emit("delete %d" % o); self.kind[o] = "none"
        else:
            self.ops(o)

    def slotop(self, o):
        n = len(self.sc)
        super().slotop(o)
        if self.sc[n:] and self.sc[-1].startswith("query"):
            self.sc.pop()

    def ops(self, o):
        w = self.rng.random()
        self.emit("ins %d %d" % (o, self.rng.randint(1, 60)) if w < 0.7 else "rem %d" % o if w < 0.96 else "clr %d" % o)

    def script(self, n):
        while len(self.sc) < n:
            self.step()
        return [l for l in self.sc if not l.startswith("query")]


def graph(conf, owned, th):
    b = "{1, 2, 3, 4}" if not th else "{1, 2, 3, 4, 5, 6}"
    c = {"Slots": 2, "Blocks": b, "Users": 1, "MaxN": 2, "Owned": "TRUE" if owned else "FALSE"}
    conf.model("MCStorage", cfg_text(constants=c, invariants=["OneAllocator", "NoneLost", "AliveOnly", "Unbound", "Rejects"]))
    c2 = dict(c, Blocks="{1, 2, 3, 4, 5, 6, 7, 8, 9}", MaxN=3)
    r = conf.model("MCStorage", cfg_text(constants=c2, view="View", action_constraint="EdgeOut", invariants=["OneAllocator", "NoneLost"]), workers=1, edges=True)
    # parallel edges that differ only in what the abstract container did with its blocks are one script line; the
    # first target is kept, and scripts never depend on the number of blocks
    first = {}
    for u, op, v in r["edges"]:
        first.setdefault((u, op), v)
    conf.cov["graph_edges_replayed"] += len(first)
    init = next(u for u, _, _ in r["edges"] if "live" not in u and "moved" not in u)
    par = {init: None}
    q = [init]
    out = {}
    for (u, op), v in first.items():
        out.setdefault(u, []).append((op, v))
    for u in q:
        for op, v in out.get(u, []):
            if v not in par:
                par[v] = (u, op); q.append(v)
    return tour([(u, op, v) for (u, op), v in first.items() if u in par], init, 60)


def run(conf):
    th = thorough()
    rng = random.Random(SEED * 7919 + 10)
    names = ["storage", "array", "list", "tree", "set", "map", "function", "string"]
    exes = {}
    with ThreadPoolExecutor(4) as ex:
        for nm, e in zip(names, ex.map(lambda x: build(conf.work, x, x + ".cpp"), names)):
            exes[nm] = e
    n, ln = (40, 100) if not th else (800, 300)
    shared, own = graph(conf, False, th), graph(conf, True, th)
    jobs = []
    B = lambda *a, **k: jobs.append((a, k))
    for mode in ("default", "user", "owned"):
        owned = mode == "owned"
        g = own if owned else shared
        for k in KINDS:
            B("%s-%s" % (mode, k), exes["storage"], g + [SGen(rng, owned).script(rng.randint(15, ln)) for _ in range(n)], "StorageTrace", tcfg(owned), args=[k, "mem", mode])
    for k in ("array", "list", "map"):
        B("nested-%s" % k, exes["storage"], [SGen(rng, False).script(rng.randint(15, ln)) for _ in range(n)], "StorageTrace", tcfg(False), args=[k, "mem", "nested"])
    L = lambda: rng.randint(15, ln)
    src = [("array", ["tracked"], [p_array.gen(rng, L()) for _ in range(n)]),
           ("list", ["tracked"], [p_list.LGen(rng).script(L()) for _ in range(n)]),
           ("tree", ["tracked", "div"], [p_tree.TGen(rng, nkeys=rng.choice([6, 30]), div=100).script(L()) for _ in range(n)]),
           ("map", ["tracked"], [p_map.MGen(rng, rng.choice([3, 8, 30]), False).script(L()) for _ in range(n)]),
           ("set", ["tracked", "div"], [p_set.SGen(rng, rng.choice([3, 8, 30]), 100).script(L()) for _ in range(n)]),
           ("function", [], [p_function.rand(rng, L()) for _ in range(n)]),
           ("string", [], [p_string.StrGen(rng, p_string.ALL, 70).script(L()) for _ in range(n)])]
    for h, args, sc in src:
        for mode in ("default", "user") if h in ("array", "list", "tree", "map") else ("default",):
            B("ops-%s-%s" % (h, mode), exes[h], sc, "StorageTrace", tcfg(False), args=args + ["mem", mode])
    conf.par(jobs)


RUN = {"C10": run}
