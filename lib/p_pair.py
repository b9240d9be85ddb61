"""C23: pairs and tuples."""
import random
from vt import *
from slotgen import SLOTS

TCFG = cfg_text(spec="TraceSpec", constants={"Slots": SLOTS}, postcondition="TraceAccepted", invariants=["TypeOK"])
WIDTH = {"pii": 2, "ptt": 2, "pten": 2, "psi": 2, "t1": 2, "t2": 5, "t3": 3, "t4": 6}
WIDE = {"pii": 2, "i64": 2, "u32": 2, "f64": 2, "t5": 6}


def rand(rng, n, ln, wide=False):
    kind = ["none"] * SLOTS
    sc = []
    x = (lambda: rng.randint(-1, 30)) if wide else lambda: rng.choice([rng.randint(-30, 30), rng.randint(-2000, 2000), rng.randint(0, 3)])
    for _ in range(ln):
        o = rng.randrange(SLOTS)
        live = [p for p in range(SLOTS) if kind[p] == "live"]
        w = rng.random()
        if kind[o] == "none":
            if live and w < 0.3:
                sc.append("copy %d %d" % (o, rng.choice(live))); kind[o] = "live"
            elif live and w < 0.45:
                p = rng.choice(live)
                sc.append("move %d %d" % (o, p)); kind[o] = "live"; kind[p] = "moved"
            else:
                sc.append("make %d %s" % (o, " ".join(str(x()) for _ in range(n)))); kind[o] = "live"
        elif kind[o] == "moved":
            if live and w < 0.6:
                p = rng.choice(live)
                sc.append("massign %d %d" % (o, p)); kind[o] = "live"; kind[p] = "moved"
            else:
                sc.append("delete %d" % o); kind[o] = "none"
        elif w < 0.4:
            sc.append("write %d %d %d" % (o, rng.randrange(n), x()))
        elif w < 0.7:
            sc.append("cmp %d %d" % (o, rng.choice(live)))
        elif w < 0.82:
            sc.append("assign %d %d" % (o, rng.choice(live)))
        elif w < 0.9 and len(live) > 1:
            p = rng.choice([q for q in live if q != o])
            sc.append("massign %d %d" % (o, p)); kind[p] = "moved"
        elif w < 0.95:
            sc.append("delete %d" % o); kind[o] = "none"
    return sc


def run(conf):
    exe = build(conf.work, "pair", "pair.cpp")
    rng = random.Random(SEED * 7919 + 23)
    th = thorough()

    def model(slots, items, n):
        cfg = cfg_text(constants={"Slots": slots, "Items": items, "N": n}, invariants=["TypeOK", "Laws"], view="View", action_constraint="EdgeOut")
        r = conf.model("MCTup", cfg, workers=1, edges=True)
        init = next(u for u, _, _ in r["edges"] if "live" not in u and "moved" not in u)
        conf.cov["graph_edges_replayed"] += len(r["edges"])
        return tour(r["edges"], init, 80)
    sc2 = model(2, "{5, 11, 12}" if not th else "{5, 11, 12, 25}", 2)
    for ty in ("pii", "ptt", "pten", "psi", "t1"):
        conf.batch("graph-" + ty, exe, sc2, "TupTrace", TCFG, args=[ty])
    conf.batch("graph-t3", exe, model(2, "{5, 11}", 3), "TupTrace", TCFG, args=["t3"])
    n, ln = (60, 120) if not th else (1200, 400)
    for ty, w in WIDTH.items():
        conf.batch("random-" + ty, exe, [rand(rng, w, ln) for _ in range(n)], "TupTrace", TCFG, args=[ty])
    for ty, w in WIDE.items():
        conf.batch("wide-" + ty, exe, [rand(rng, w, ln, True) for _ in range(n)], "TupTrace", TCFG, args=[ty, "wide"])


RUN = {"C23": run}
