"""C05: lists."""
import random
from vt import *
from slotgen import Gen, SLOTS


class LGen(Gen):
    def __init__(self, rng, vals=9, maxlen=25):
        super().__init__(rng); self.vals = vals; self.maxlen = maxlen

    def x(self):
        return self.rng.randint(1, self.vals)

    def create(self, o):
        if self.rng.random() < 0.5:
            xs = [self.x() for _ in range(self.rng.randint(0, 6))]
            self.emit("newrange %d %s" % (o, " ".join(map(str, xs)))); self.v[o] = xs
        else:
            self.emit("new %d" % o); self.v[o] = []

    def ops(self, o):
        rng, v = self.rng, self.v[o]
        w = rng.random()
        if len(v) > self.maxlen:
            self.emit("empty %d" % o); self.v[o] = []
        elif w < 0.4:
            xs = [self.x() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            if rng.random() < 0.5:
                self.emit("pushback %d %s" % (o, " ".join(map(str, xs)))); v += xs
            else:
                self.emit("pushfront %d %s" % (o, " ".join(map(str, xs)))); v[:0] = xs[::-1]
        elif w < 0.45 and v:
            i = rng.randrange(len(v)); x = self.x()
            if rng.random() < 0.3:
                b = rng.randint(0, 1)
                self.emit("pushown %d %d %d" % (o, i, b)); v.insert(len(v) if b else 0, v[i])
                return
            self.emit("%s %d %d %d" % (rng.choice(["set", "setit"]), o, i, x)); v[i] = x
        elif w < 0.65 and v:
            i = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
            self.emit("%s %d %d" % (rng.choice(["rem", "remit"]), o, i)); del v[i]
        elif w < 0.68:
            self.emit("remend %d" % o)
        elif w < 0.78:
            self.emit("%s %d" % (rng.choice(["remback", "popback"]), o)); del v[-1:]
        elif w < 0.88:
            self.emit("%s %d" % (rng.choice(["remfront", "popfront"]), o)); del v[:1]
        elif w < 0.91:
            self.emit("empty %d" % o); self.v[o] = []
        else:
            self.emit("query %d" % o)


TCFG = cfg_text(spec="TraceSpec", constants={"Slots": SLOTS}, postcondition="TraceAccepted", invariants=["TypeOK"])


def graph(conf, module, consts, initkey='[{"k":"none"', maxlen=60, **kw):
    cfg = cfg_text(constants=consts, invariants=["TypeOK"], constraint="Small", view="View", action_constraint="EdgeOut")
    r = conf.model(module, cfg, workers=1, edges=True, **kw)
    init = next(u for u, _, _ in r["edges"] if "live" not in u and "moved" not in u)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    return tour(r["edges"], init, maxlen)


def long_script(rng, m):
    s, n = ["new 0", "mute 1"], 0
    while n < m:
        w = rng.choice([1, 1, 2, 3])
        s.append("%s 0 %s" % (rng.choice(["pushback", "pushback", "pushfront"]), " ".join(str(rng.randint(1, 999)) for _ in range(w)))); n += w
        if any(n - w < k <= n for k in (100, 256, 512, 1024, m)):
            s += ["mute 0", "query 0", "mute 1"]
    s += ["rem 0 %d" % (n // 2), "remit 0 %d" % (n // 3), "rem 0 %d" % (n - 3), "rem 0 0", "popback 0", "popfront 0", "set 0 %d 5" % (n // 2), "copy 1 0", "mute 0", "query 0", "query 1", "mute 1"]
    n -= 6
    s += [rng.choice(["remback 0", "popback 0", "remfront 0", "popfront 0", "rem 0 %d" % rng.randrange(50)]) for _ in range(n // 2)]
    return s + ["mute 0", "query 0", "assign 0 1", "query 0", "massign 1 0", "query 1", "empty 1", "query 1"]


def run(conf):
    exe = build(conf.work, "list", "list.cpp")
    sc = graph(conf, "MCList", {"Slots": 2, "Items": "{1, 2}", "MaxLen": 3 if thorough() else 2})
    # a query after every step of the graph scripts shows both link directions
    scq = [[l for s in x for l in ((s, "query " + s.split()[1]) if not s.startswith(("delete", "query")) else (s,))] for x in sc]
    rng = random.Random(SEED * 7919 + 5)
    n, ln = (150, 120) if not thorough() else (2500, 300)
    for ty in ("int", "tracked"):
        conf.batch("graph-" + ty, exe, scq, "ListTrace", TCFG, args=[ty])
        conf.batch("random-" + ty, exe, [LGen(rng).script(rng.randint(10, ln)) for _ in range(n)], "ListTrace", TCFG, args=[ty])
        conf.batch("random-" + {"int": "block", "tracked": "byte"}[ty], exe, [LGen(rng).script(rng.randint(10, ln)) for _ in range(n // 2)], "ListTrace", TCFG, args=[{"int": "block", "tracked": "byte"}[ty]])
        conf.batch("huge-" + ty, exe, [["new 0", "mute 1", "bulk 0 66003", "rem 0 500", "pushfront 0 7", "mute 0", "query 0", "mute 1", "copy 1 0", "drain 0 65990", "mute 0", "query 0", "query 1", "assign 0 1", "query 0"]], "ListTrace", TCFG, args=[ty], chunk=1, heap="3g")
        conf.batch("long-" + ty, exe, [long_script(rng, m) for m in ((300, 1100) if not thorough() else (300, 1100, 3500))], "ListTrace", TCFG, args=[ty], chunk=1)


RUN = {"C05": run}
