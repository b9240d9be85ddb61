"""C09: maps."""
import random
from vt import *
from slotgen import Gen, SLOTS
from p_list import graph
from p_tree import rb_scripts


class MGen(Gen):
    p_slot = 0.12

    def __init__(self, rng, nkeys=8, rev=False):
        super().__init__(rng); self.nkeys, self.rev = nkeys, rev

    def fresh(self):
        return set()

    def dup(self, v):
        return set(v)

    def ops(self, o):
        rng, v = self.rng, self.v[o]
        k = rng.choice(sorted(v)) if v and rng.random() < 0.5 else rng.randint(0, self.nkeys)
        x = rng.randint(1, 99)
        w = rng.random()
        if w < 0.25:
            self.emit("ins %d %d %d" % (o, k, x)); v.add(k)
        elif w < 0.45:
            self.emit("put %d %d %d" % (o, k, x)); v.add(k)
        elif w < 0.52:
            self.emit("idx %d %d" % (o, k)); v.add(k)
        elif w < 0.58:
            self.emit("setit %d %d %d" % (o, k, x))
        elif w < 0.73:
            self.emit("%s %d %d" % (rng.choice(["rem", "pop"]), o, k)); v.discard(k)
        elif w < 0.79 and v:
            i = rng.randrange(len(v))
            self.emit("remit %d %d" % (o, i)); v.discard(sorted(v, reverse=self.rev)[i])
        elif w < 0.82:
            j, u = rng.randint(0, 40), rng.choice([0, 0, 1, 1, 2, 3])
            i = rng.randint(0, 40)
            self.emit("own %d %d %d %d" % (o, i, j, u))
            if u == 2 and v:
                v.discard(sorted(v, reverse=self.rev)[i % len(v)])
        elif w < 0.93:
            self.emit("find %d %d" % (o, k))
        else:
            self.emit("query %d" % o)


def tcfg(rev=False):
    return cfg_text(spec="TraceSpec", constants={"Slots": SLOTS, "Rev": "TRUE" if rev else "FALSE"}, postcondition="TraceAccepted", invariants=["TypeOK"])


# more items than 16 bits can count
HUGE = [["new 0", "mute 1", "bulk 0 66003 %d" % how, "bulkrem 0 66003 1001 %d" % h2, "mute 0", "query 0", "mute 1", "copy 1 0", "delete 0", "mute 0", "query 1", "mute 1", "find 1 40001", "delete 1", "mute 0", "new 1", "query 1"] for how, h2 in ((0, 1), (40507, 0))]


def long_script(rng, m):
    ks = list(range(1, m + 1))
    rng.shuffle(ks)
    s = ["new 0", "mute 1"]
    for j, k in enumerate(ks):
        s.append(rng.choice(["ins 0 %d %d", "put 0 %d %d"]) % (k, rng.randint(1, 999)))
        if j % 5 == 0:
            s.append(rng.choice(["put 0 %d 77" % ks[rng.randint(0, j)], "idx 0 %d" % ks[rng.randint(0, j)], "ins 0 %d 5" % ks[rng.randint(0, j)]]))
        if j + 1 in (128, 256, 512, 1024):
            s += ["mute 0", "query 0", "mute 1"]
    s += ["find 0 %d" % rng.randint(0, m + 1) for _ in range(10)]
    s += ["mute 0", "copy 1 0", "query 1", "mute 1"]
    rng.shuffle(ks)
    s += ["%s 0 %d" % (rng.choice(["rem", "pop"]), k) for k in ks[:2 * m // 3]] + ["rem 0 %d" % ks[0], "mute 0", "query 0", "assign 0 1", "query 0", "massign 1 0", "query 1"]
    return s


def run(conf):
    exe = build(conf.work, "map", "map.cpp")
    rng = random.Random(SEED * 7919 + 9)
    th = thorough()
    sc = graph(conf, "MCMap", {"Slots": 2, "KeySet": "{1, 2}" if not th else "{1, 2, 3}", "ValSet": "{5, 6}", "MaxLen": 2, "Rev": "FALSE"})
    for ty in ("int", "tracked", "string"):
        conf.batch("graph-" + ty, exe, sc, "MapTrace", tcfg(), args=[ty])
    # the balancing graph of the tree underneath, through the map's own operations
    rb, _ = rb_scripts(conf, 6 if not th else 9)
    ls = []
    for s in rb:
        l = ["new 0"]
        for j, x in enumerate(s):
            if x[0] == "i":
                l.append("%s 0 %d %d" % (["ins", "put"][j % 2], x[1], j + 1))
            elif j % 3 == 0:
                l.append("remit 0 %d" % x[1])
            else:
                l.append("%s 0 %d" % (["rem", "pop"][j % 2], x[2]))
        ls.append(l + ["query 0"])
    conf.batch("rb-graph", exe, ls, "MapTrace", tcfg(), args=["int"])
    n, ln = (100, 100) if not th else (2000, 300)
    for name, args, rev in (("int", ["int"], False), ("rev", ["int", "rev"], True), ("tracked", ["tracked"], False), ("trev", ["tracked", "rev"], True), ("string", ["string"], False)):
        ss = [MGen(rng, rng.choice([3, 8, 30]), rev).script(rng.randint(15, ln)) for _ in range(n)]
        conf.batch("random-" + name, exe, ss, "MapTrace", tcfg(rev), args=args)
    for ty in ("i32", "i64", "u32", "u64", "f32", "f64", "i8"):
        conf.batch("wide-" + ty, exe, [MGen(rng, rng.choice([3, 8, 30])).script(rng.randint(15, ln)) for _ in range(n // 4)], "MapTrace", tcfg(), args=[ty, "wide"])
    conf.batch("huge", exe, HUGE, "MapTrace", tcfg(), args=["int"], chunk=1, heap="3g")
    for ty in ("int", "string"):
        conf.batch("long-" + ty, exe, [long_script(rng, m) for m in ((300, 700) if not th else (300, 700, 2200))], "MapTrace", tcfg(), args=[ty], chunk=1)


RUN = {"C09": run}
