"""C12: optionals."""
import random
from vt import *
from slotgen import SLOTS

TCFG = cfg_text(spec="TraceSpec", constants={"Slots": SLOTS}, postcondition="TraceAccepted", invariants=["TypeOK"])
LCFG = cfg_text(spec="TraceSpec", postcondition="TraceAccepted")
TYPES = ("int", "tracked", "string", "agg", "wide")


def rand(rng, length):
    kind = ["none"] * SLOTS
    eng = [False] * SLOTS
    sc = []
    x = lambda: rng.randint(1, 99)
    while len(sc) < length:
        o = rng.randrange(SLOTS)
        live = [p for p in range(SLOTS) if kind[p] == "live"]
        if kind[o] == "none":
            c = rng.random()
            if c < 0.25 or not live:
                sc.append("new %d" % o); kind[o] = "live"; eng[o] = False
            elif c < 0.5:
                sc.append("newv %d %d" % (o, x())); kind[o] = "live"; eng[o] = True
            else:
                p = rng.choice(live); w = rng.choice(["copy", "copync", "move"])
                sc.append("%s %d %d" % (w, o, p)); kind[o] = "live"; eng[o] = eng[p]
                if w == "move":
                    kind[p] = "moved"
            continue
        w = rng.random()
        if w < 0.2:
            sc.append("%s %d %d" % (rng.choice(["setv", "emplace"]), o, x())); kind[o] = "live"; eng[o] = True
        elif w < 0.3:
            sc.append("diseng %d" % o); kind[o] = "live"; eng[o] = False
        elif w < 0.5 and live:
            p = rng.choice(live)
            sc.append("assign %d %d" % (o, p)); eng[o] = eng[p]; kind[o] = "live"
        elif w < 0.65 and [p for p in live if p != o]:
            p = rng.choice([p for p in live if p != o])
            sc.append("massign %d %d" % (o, p)); eng[o] = eng[p]; kind[o] = "live"; kind[p] = "moved"
        elif w < 0.75:
            sc.append("query %d" % o)
        elif w < 0.85 and kind[o] == "live" and eng[o]:
            if rng.random() < 0.7:
                sc.append("write %d %d" % (o, x()))
            else:
                sc.append("take %d" % o); eng[o] = False
        elif w < 0.92 and kind[o] == "live" and [p for p in live if p != o]:
            p = rng.choice([p for p in live if p != o])
            sc.append("swap %d %d" % (o, p)); eng[o], eng[p] = eng[p], eng[o]
        elif w > 0.96:
            sc.append("delete %d" % o); kind[o] = "none"
    return sc


def graph(conf, th):
    cfg = cfg_text(constants={"Slots": 2 if not th else 3, "Items": "{1, 2}"}, invariants=["TypeOK"], view="View", action_constraint="EdgeOut")
    r = conf.model("MCOpt", cfg, workers=1, edges=True)
    init = next(u for u, _, _ in r["edges"] if "live" not in u and "moved" not in u)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    # queries behind every step show the state through every accessor
    return [[l for s in x for l in ((s,) if s.split()[0] in ("delete", "query") else (s, "query " + s.split()[1]))] for x in tour(r["edges"], init, 60)]


def run(conf):
    exe = build(conf.work, "optional", "optional.cpp")
    th = thorough()
    rng = random.Random(SEED * 7919 + 12)
    sc = graph(conf, th)
    n = 60 if not th else 1500
    for ty in TYPES:
        conf.batch("graph-" + ty, exe, sc, "OptTrace", TCFG, args=[ty])
        conf.batch("random-" + ty, exe, [rand(rng, rng.randint(10, 120 if not th else 400)) for _ in range(n)], "OptTrace", TCFG, args=[ty])
    # a value that is no longer held has been destroyed, exactly once
    conf.batch("life-graph", exe, sc, "LifeTrace", LCFG, args=["tracked", "life"])
    conf.batch("life-random", exe, [rand(rng, rng.randint(10, 120 if not th else 400)) for _ in range(n)], "LifeTrace", LCFG, args=["tracked", "life"])


RUN = {"C12": run}
