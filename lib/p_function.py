"""C13: callable wrappers."""
import random
from vt import *
from slotgen import SLOTS

TCFG = cfg_text(spec="TraceSpec", constants={"Slots": SLOTS}, postcondition="TraceAccepted", invariants=["TypeOK"])
LCFG = cfg_text(spec="TraceSpec", postcondition="TraceAccepted")
KINDS = [1, 2, 3, 4, 5, 6, 7, 8]


def rand(rng, length):
    kind = ["none"] * SLOTS
    bound = [False] * SLOTS
    sc = []
    kb = lambda: "%d %d" % (rng.choice(KINDS), rng.randint(1, 60))
    while len(sc) < length:
        o = rng.randrange(SLOTS)
        live = [p for p in range(SLOTS) if kind[p] == "live"]
        oth = [p for p in live if p != o]
        if kind[o] == "none":
            c = rng.random()
            if c < 0.1:
                sc.append("new %d" % o); bound[o] = False
            elif c < 0.5 or not live:
                sc.append("bind %d %s" % (o, kb())); bound[o] = True
            else:
                p = rng.choice(live); w = rng.choice(["copy", "copync", "move"])
                sc.append("%s %d %d" % (w, o, p)); bound[o] = bound[p]
                if w == "move":
                    kind[p] = "moved"; bound[p] = False
            kind[o] = "live"
            continue
        w = rng.random()
        if w < 0.4 and bound[o]:
            sc.append("%s %d %d" % (rng.choice(["call", "ccall"]), o, rng.randint(0, 50)))
        elif w < 0.5:
            sc.append("rebind %d %s" % (o, kb())); kind[o] = "live"; bound[o] = True
        elif w < 0.65 and live:
            p = rng.choice(live)
            sc.append("assign %d %d" % (o, p)); kind[o] = "live"; bound[o] = bound[p]
        elif w < 0.77 and oth:
            p = rng.choice(oth)
            sc.append("massign %d %d" % (o, p)); kind[o] = "live"; bound[o] = bound[p]; kind[p] = "moved"; bound[p] = False
        elif w < 0.85:
            sc.append("query %d" % o)
        elif w < 0.9:
            sc.append("delete %d" % o); kind[o] = "none"; bound[o] = False
        elif w < 0.95:
            sc.append("sig %d %d" % (rng.randrange(12), rng.randint(0, 99)))
    return sc


def graph(conf, kinds, slots, calls):
    cfg = cfg_text(constants={"Slots": slots, "Kinds": "{%s}" % ", ".join(map(str, kinds)), "Bases": "{4}", "MaxCalls": calls},
                   invariants=["TypeOK"], constraint="Small", view="View", action_constraint="EdgeOut")
    r = conf.model("MCFn", cfg, workers=1, edges=True)
    init = next(u for u, _, _ in r["edges"] if "live" not in u and "moved" not in u and "[0,0,0]" in u)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    return tour(r["edges"], init, 60)


def run(conf):
    exe = build(conf.work, "function", "function.cpp")
    th = thorough()
    rng = random.Random(SEED * 7919 + 13)
    for ks in ([1, 3], [4, 6], [5, 7], [2, 8]):
        conf.batch("graph-%d%d" % tuple(ks), exe, graph(conf, ks, 2, 1 if not th else 3), "FnTrace", TCFG)
    if th:
        conf.batch("graph-3slots", exe, graph(conf, [4, 6], 3, 1), "FnTrace", TCFG)
    conf.batch("signatures", exe, [["sig %d %d" % (w, x) for w in range(12)] for x in (0, 1, 7, 99, 1000)], "FnTrace", TCFG)
    fwd = ["fwd %d %d %d %d %d" % (ret, par, rv, how, 10 * par + rv + 1) for ret in (0, 1) for how in (0, 1, 2)
           for par, rv in ((0, 0), (0, 1), (1, 0), (2, 0), (2, 1), (3, 1), (4, 1))]
    conf.batch("forwarding", exe, [fwd], "FnTrace", TCFG)
    n = 200 if not th else 4000
    conf.batch("random", exe, [rand(rng, rng.randint(10, 120 if not th else 400)) for _ in range(n)], "FnTrace", TCFG)
    # the wrapped functor lives as long as its wrapper says
    conf.batch("life-graph", exe, graph(conf, [4, 5], 2, 1), "LifeTrace", LCFG, args=["life"])
    conf.batch("life-random", exe, [rand(rng, rng.randint(10, 120 if not th else 400)) for _ in range(n)], "LifeTrace", LCFG, args=["life"])


RUN = {"C13": run}
