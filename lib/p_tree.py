"""C06: ordered trees; C07: balance."""
import random
from vt import *
from slotgen import Gen, SLOTS
from p_list import graph


class TGen(Gen):
    def __init__(self, rng, nkeys=10, div=1, maxlen=30, p_grow=0.55):
        super().__init__(rng); self.nkeys, self.div, self.maxlen, self.p_grow = nkeys, div, maxlen, p_grow

    def x(self):
        k = self.rng.randint(1, self.nkeys)
        return k * self.div + (self.rng.randint(0, 20) if self.div > 1 else 0)

    def fresh(self):
        return [0]          # only the number of items matters for the preconditions

    # the exact contents depend on the order of equal items; track a multiset of keys
    def create(self, o):
        self.emit("new %d" % o); self.v[o] = []

    def ops(self, o):
        rng, v = self.rng, self.v[o]
        key = lambda x: x // self.div
        w = rng.random()
        if len(v) > self.maxlen:
            if rng.random() < 0.3:
                self.emit("empty %d" % o); self.v[o] = []
                return
            w = self.p_grow + (1 - self.p_grow) * 0.1
        if w < self.p_grow:
            xs = [self.x() for _ in range(rng.choice([1, 1, 1, 1, 2, 3]))]
            c = rng.choice(["ins", "ins", "insu", "repl"])
            if c == "ins":
                v += [key(x) for x in xs]
            else:
                for x in xs:
                    if key(x) not in v:
                        v.append(key(x))
            self.emit("%s %d %s" % (c, o, " ".join(map(str, xs))))
        elif w < self.p_grow + (1 - self.p_grow) * 0.65:
            if rng.random() < 0.4:
                k = rng.choice(v) if v and rng.random() < 0.8 else rng.randint(0, self.nkeys + 1)
                self.emit("remv %d %d" % (o, k))
                if k in v:
                    v.remove(k)
            elif v:
                i = rng.randrange(len(v))
                self.emit("%s %d %d" % (rng.choice(["rem", "remit"]), o, i))
                sv = sorted(v, reverse=getattr(self, "rev", False))
                v.remove(sv[i])
        elif w < 0.9:
            self.emit("find %d %d" % (o, rng.randint(0, self.nkeys + 1)))
        elif w < 0.915:
            if v:
                i = rng.randrange(len(v))
                c = rng.choice(["setit", "setit", "insown", "remown"])
                self.emit("%s %d %d %s" % (c, o, i, rng.randint(0, 99) if c == "setit" else (u := rng.randint(0, 2)) if c == "insown" else ""))
                k = sorted(v, reverse=getattr(self, "rev", False))[i]
                if c == "remown":
                    v.remove(k)
                elif c == "insown" and u == 0:
                    v.append(k)
        elif w < 0.92:
            self.emit("remend %d" % o)
        elif w < 0.94:
            self.emit("empty %d" % o); self.v[o] = []
        else:
            self.emit("query %d" % o)


def tcfg(div=1, rev=False):
    return cfg_text(spec="TraceSpec", constants={"Slots": SLOTS, "Div": div, "Rev": "TRUE" if rev else "FALSE"},
                    postcondition="TraceAccepted", invariants=["TypeOK"])


def rb_scripts(conf, maxn, slot=0):
    """Every edge of the balancing algorithm's state graph, as scripts on integer keys."""
    cfg = cfg_text(constants={"MaxN": maxn}, invariants=["Balanced", "Shallow"], properties=["SizeStep"], view="View", action_constraint="EdgeOut")
    r = conf.model("RBTree", cfg, workers=1, edges=True)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    return [to_keys(s) for s in tour(r["edges"], "[]", 120)], r


def to_keys(script):
    """i g / r i -> operations with integer keys: the keys of a whole script are ranked in one total order."""
    order, alive, ops = [], [], []
    for s in script:
        c, k = s.split()
        k = int(k)
        if c == "i":
            n = object()
            pos = order.index(alive[k]) if k < len(alive) else len(order)
            order.insert(pos, n)
            alive.insert(k, n)
            ops.append(("i", n))
        else:
            ops.append(("r", k, alive.pop(k)))
    rank = {id(n): j + 1 for j, n in enumerate(order)}
    return [("i", rank[id(o[1])]) if o[0] == "i" else ("r", o[1], rank[id(o[2])]) for o in ops]


def rb_lines(ops, o=0, how="rem"):
    out = []
    for k, op in enumerate(ops):
        if op[0] == "i":
            out.append("%s %d %d" % (["ins", "insu", "repl"][k % 3], o, op[1]))
        elif (k % 3) == 0:
            out.append("remv %d %d" % (o, op[2]))
        else:
            out.append("%s %d %d" % (["remit", "rem"][k % 2], o, op[1]))
    return out


def shape_paths(r):
    """shortest operation sequence to every shape"""
    out = {}
    for u, op, v in r["edges"]:
        out.setdefault(u, []).append((op, v))
    path = {"[]": []}
    q = ["[]"]
    for u in q:
        for op, v in sorted(out.get(u, [])):
            if v not in path:
                path[v] = path[u] + [op]
                q.append(v)
    return path


def run06(conf):
    exe = build(conf.work, "tree", "tree.cpp")
    rng = random.Random(SEED * 7919 + 6)
    th = thorough()
    # the abstract state graph, with distinguishable items of equal key
    consts = {"Slots": 2, "Items": "{100, 101, 200}" , "MaxLen": 2 if not th else 3, "Div": 100, "Rev": "FALSE"}
    cfg = cfg_text(constants=consts, invariants=["TypeOK", "GapsOK"], constraint="Cons", view="View", action_constraint="EdgeOut")
    r = conf.model("MCTree", cfg, workers=1, edges=True)
    init = next(u for u, _, _ in r["edges"] if "live" not in u and "moved" not in u)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    # the choice among equal items is the implementation's: replay edges as scripts, keep only deterministic prefixes
    sc = tour(det(r["edges"]), init, 60)
    for ty in ("int", "tracked"):
        conf.batch("graph-" + ty, exe, sc, "TreeTrace", tcfg(100), args=[ty, "div"])
    # every edge of the balancing graph, looking at the whole tree after each step
    rb, rr = rb_scripts(conf, 7 if not th else 10)
    ls = []
    for s in rb:
        l = ["new 0"]
        for x in rb_lines(s):
            l += [x, "query 0"]
        ls.append(l)
    conf.batch("rb-graph", exe, ls, "TreeTrace", tcfg(1), args=["int"])
    # the same collection kept by hand with the nodes' own interface
    conf.batch("rb-graph-nodes", exe, ls if th else ls[::2], "TreeTrace", tcfg(1), args=["int", "nodes", "shape"])
    # assignment between every pair of shapes
    paths = shape_paths(rr)
    small = [p for u, p in sorted(paths.items()) if u.count("[") - 1 <= 400 and len(p) <= (5 if not th else 7)]
    ps = []
    for a in small:
        for b in small:
            l = ["new 0", "new 1"] + rb_lines(to_keys(a), 0) + rb_lines(to_keys(b), 1)
            ps.append(l + ["assign 0 1", "query 0", "query 1", "ins 0 50", "remv 0 1", "query 0", "query 1"])
    if th and len(ps) > 4000:
        ps = rng.sample(ps, 4000)
    conf.batch("assign-shapes", exe, ps, "TreeTrace", tcfg(1), args=["int"])
    n = 60 if not th else 900
    for name, args, div, rev in (("plain", ["int"], 1, False), ("equal", ["int", "div"], 100, False),
                                 ("reverse", ["int", "div", "rev"], 100, True), ("tracked", ["tracked", "div"], 100, False),
                                 ("nodes", ["tracked", "div", "nodes"], 100, False)):
        ss = []
        for _ in range(n):
            g = TGen(rng, nkeys=rng.choice([4, 10, 40]), div=div, maxlen=rng.choice([8, 20, 40]))
            g.rev = rev
            ss.append(g.script(rng.randint(20, 120 if not th else 400)))
        conf.batch("random-" + name, exe, ss, "TreeTrace", tcfg(div, rev), args=args)
    for k, ty in enumerate(("i32", "i64", "u32", "u64", "f32", "f64", "i8", "block")):
        ss = [TGen(rng, nkeys=rng.choice([4, 10, 29]), div=1, maxlen=rng.choice([8, 20, 40])).script(rng.randint(20, 120)) for _ in range(n // 3)]
        conf.batch("wide-" + ty, exe, ss, "TreeTrace", tcfg(1), args=["block"] if ty == "block" else [ty, "wide"] + (["nodes"] if k % 2 else []))
    for nm, args in (("tree", ["int"]), ("nodes", ["int", "nodes"])):
        conf.batch("huge-" + nm, exe, HUGE[nm == "nodes":], "TreeTrace", tcfg(1), args=args, chunk=1, heap="3g")
        conf.batch("long-" + nm, exe, [long_script(rng, m) for m in ((250, 700, 900) if not th else (250, 700, 1500, 3000))], "TreeTrace", tcfg(1), args=args, chunk=1)


# more items than 16 bits can count
HUGE = [["new 0", "mute 1", "bulk 0 66003 %d" % how, "bulkrem 0 66003 1001 %d" % h2, "mute 0", "query 0", "mute 1", "copy 1 0", "delete 0", "mute 0", "query 1", "mute 1", "find 1 40001", "empty 1", "mute 0", "query 1"] for how, h2 in ((0, 1), (40507, 0))]


def long_script(rng, m):
    ks = list(range(1, m + 1))
    how = rng.randrange(3)
    if how == 0:
        rng.shuffle(ks)
    elif how == 1:
        ks.reverse()
    s = ["new 0", "mute 1"]
    for j, k in enumerate(ks):
        s.append("%s 0 %d" % (rng.choice(["ins", "insu", "repl"]), k))
        if j % 9 == 0:
            s.append("%s 0 %d" % (rng.choice(["insu", "repl"]), ks[rng.randint(0, j)]))
        if j + 1 in (256, 1024):
            s += ["mute 0", "query 0", "mute 1"]
    s += ["find 0 %d" % rng.randint(0, m + 1) for _ in range(10)] + ["rem 0 %d" % (m // 2), "remit 0 %d" % (m // 3), "mute 0", "copy 1 0", "query 1", "mute 1"]
    rng.shuffle(ks)
    return s + ["remv 0 %d" % k for k in ks[:3 * m // 4]] + ["mute 0", "query 0", "assign 0 1", "query 0", "empty 1", "query 1"]


def det(edges):
    """Insertion next to equal items may have several outcomes; scripts follow one of them per (state, op)."""
    seen = {}
    for u, op, v in edges:
        seen.setdefault((u, op), v)
    return [(u, op, v) for (u, op), v in seen.items()]


def run07(conf):
    exe = build(conf.work, "tree", "tree.cpp")
    rng = random.Random(SEED * 7919 + 7)
    th = thorough()
    rb, rr = rb_scripts(conf, 9 if not th else 12)
    conf.batch("rb-graph", exe, [["new 0"] + rb_lines(s) for s in rb], "TreeTrace", tcfg(1), args=["int", "shape"])
    # adversarial and long histories
    ss = []
    for k in range(12 if not th else 80):
        n = rng.choice([60, 120, 200] if not th else [100, 300, 500])
        ks = list(range(1, n + 1))
        mode = k % 6
        if mode == 1:
            ks.reverse()
        elif mode == 2:
            ks = [x for p in zip(ks[:n // 2], ks[:n // 2 - 1:-1]) for x in p]
        elif mode >= 3:
            rng.shuffle(ks)
        rem = list(ks)
        if mode in (3, 4):
            rng.shuffle(rem)
        if mode == 5:
            rem.sort()
        s = ["new 0"] + ["ins 0 %d" % x for x in ks] + ["remv 0 %d" % x for x in rem]
        ss.append(s)
    conf.batch("long", exe, ss, "TreeTrace", tcfg(1), args=["int", "shape"], chunk=1)
    conf.batch("huge", exe, [["new 0", "mute 1", "bulk 0 %d %d" % (n, h), "bulkrem 0 %d %d %d" % (n, m, h2), "mute 0", "query 0", "mute 1", "copy 1 0", "delete 0", "mute 0", "ins 1 %d" % (n + 9), "remv 1 5"]
                             for n, h, m, h2 in ((40003, 20011, 7, 0), (20001, 0, 2, 1), (9001, 1, 3, 5003))], "TreeTrace", tcfg(1), args=["int", "shape"], chunk=1, heap="3g")
    rs = []
    for _ in range(60 if not th else 800):
        g = TGen(rng, nkeys=rng.choice([6, 30, 60]), div=1, maxlen=rng.choice([10, 40]), p_grow=rng.choice([0.4, 0.5, 0.6]))
        rs.append(g.script(rng.randint(40, 150)))
    conf.batch("random", exe, rs, "TreeTrace", tcfg(1), args=["int", "shape"])


RUN = {"C06": run06, "C07": run07}
