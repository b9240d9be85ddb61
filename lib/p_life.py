"""C02: every element lives exactly as long as its container says."""
import random
from vt import *
import p_array, p_list, p_tree, p_set, p_map, p_pair, p_optional, p_function

TCFG = cfg_text(spec="TraceSpec", postcondition="TraceAccepted")
RUNNERS = {}


def sources(conf, rng, th):
    """(name, harness, args, scripts)"""
    n, ln = (60, 100) if not th else (1200, 300)
    L = lambda: rng.randint(15, ln)
    yield "array", "array", ["tracked"], p_array.model(conf) + [p_array.gen(rng, L()) for _ in range(n)]
    yield "list", "list", ["tracked"], p_list.graph(conf, "MCList", {"Slots": 2, "Items": "{1, 2}", "MaxLen": 2}) + [p_list.LGen(rng).script(L()) for _ in range(n)]
    yield "tree", "tree", ["tracked", "div"], [p_tree.TGen(rng, nkeys=rng.choice([6, 30]), div=100).script(L()) for _ in range(n)]
    yield "set", "set", ["tracked", "div"], [p_set.SGen(rng, rng.choice([3, 8, 30]), 100).script(L()) for _ in range(n)]
    yield "map", "map", ["tracked"], p_list.graph(conf, "MCMap", {"Slots": 2, "KeySet": "{1, 2}", "ValSet": "{5, 6}", "MaxLen": 2, "Rev": "FALSE"}) + [p_map.MGen(rng, rng.choice([3, 8, 30]), False).script(L()) for _ in range(n)]
    for ty in ("ptt", "psi", "t2", "t3"):
        yield "pair-" + ty, "pair", [ty], [p_pair.rand(rng, p_pair.WIDTH[ty], ln) for _ in range(n // 3)]
    yield "optional", "optional", ["tracked"], p_optional.graph(conf, th) + [p_optional.rand(rng, L()) for _ in range(n)]
    yield "function", "function", [], p_function.graph(conf, [4, 5], 2, 1) + [p_function.rand(rng, L()) for _ in range(n)]


def run(conf):
    rng = random.Random(SEED * 7919 + 2)
    th = thorough()
    cfg = cfg_text(constants={"Owners": "{1, 2}", "Places": "{1, 2, 3, 4}" if not th else "{1, 2, 3, 4, 5, 6}"}, invariants=["TypeOK", "OneOwner", "NoneLost", "Rejects"])
    conf.model("MCLife", cfg)
    exes = {}
    names = ["array", "list", "tree", "set", "map", "pair", "optional", "function"]
    with ThreadPoolExecutor(4) as ex:
        for nm, e in zip(names, ex.map(lambda x: build(conf.work, x, x + ".cpp"), names)):
            exes[nm] = e
    for name, h, args, sc in sources(conf, rng, th):
        conf.batch(name, exes[h], sc, "LifeTrace", TCFG, args=args + ["life"])


RUN = {"C02": run}
