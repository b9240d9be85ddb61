"""C24: fixed arrays and compile-time names."""
import json, random
from vt import *
from slotgen import SLOTS

TCFG = cfg_text(spec="TraceSpec", constants={"Slots": SLOTS}, postcondition="TraceAccepted", invariants=["TypeOK"])
NCFG = cfg_text(spec="TraceSpec", postcondition="TraceAccepted")
WIDTH = {"i1": 1, "i3": 3, "t3": 3, "t8": 8, "s2": 2, "c5": 5, "l13": 13, "w4": 4}


def rand(rng, n, ln):
    kind = ["none"] * SLOTS
    sc = []
    x = lambda: rng.choice([rng.randint(-30, 30), rng.randint(-120, 120), rng.randint(0, 3)])
    row = lambda k: " ".join(str(x()) for _ in range(k))
    while len(sc) < ln:
        o = rng.randrange(SLOTS)
        live = [p for p in range(SLOTS) if kind[p] == "live"]
        w = rng.random()
        if kind[o] == "none":
            kind[o] = "live"
            others = [p for p in live if p != o]
            if others and w < 0.35:
                sc.append("%s %d %d" % (rng.choice(["copy", "copync"]), o, rng.choice(others)))
            elif others and w < 0.45:
                p = rng.choice(others)
                sc.append("move %d %d" % (o, p)); kind[p] = "moved"
            elif w < 0.5:
                sc.append("new %d" % o)
            elif w < 0.75:
                sc.append("make %d %s" % (o, row(rng.choice([n, n, rng.randint(1, n)]))))
            else:
                sc.append("%s %d %s" % (rng.choice(["buf", "list"]), o, row(n)))
        elif kind[o] == "moved":
            if live and w < 0.6:
                p = rng.choice(live)
                sc.append("massign %d %d" % (o, p)); kind[o] = "live"; kind[p] = "moved"
            else:
                sc.append("delete %d" % o); kind[o] = "none"
        elif w < 0.4:
            sc.append("write %d %d %d" % (o, rng.randrange(n), x()))
        elif w < 0.6:
            sc.append("read %d %d" % (o, rng.randrange(n)))
        elif w < 0.82:
            sc.append("%s %d %d" % (rng.choice(["assign", "assignnc"]), o, rng.choice(live)))
        elif w < 0.9 and len(live) > 1:
            p = rng.choice([q for q in live if q != o])
            sc.append("massign %d %d" % (o, p)); kind[p] = "moved"
        elif w < 0.95:
            sc.append("delete %d" % o); kind[o] = "none"
    return sc


def lit(v):
    return '"' + "".join("\\%03o" % c for c in v) + '"'


class Names:
    """A C++ program whose scenarios make names; what is read from them is decided by the specification."""

    def __init__(self):
        self.text, self.scn = [], []

    def scenario(self, ops):
        s = len(self.scn)
        rows = []
        for k, op in enumerate(ops):
            nm = "s%d_%d" % (s, k)
            ref = lambda i: "s%d_%d" % (s, i - 1)
            ln = "-1"
            if op[0] == "lit":
                self.text.append("static constexpr Name %s = %s;" % (nm, lit(op[1])))
                f = ("Literal", {"v": op[1]})
            elif op[0] == "held":
                self.text.append("static constexpr StaticArray<ansichar, %d> a%s{%s};" % (len(op[1]) + 1, nm, ", ".join("(ansichar)%d" % c for c in op[1] + [0])))
                self.text.append("static constexpr Name %s{a%s};" % (nm, nm))
                f = ("Held", {"v": op[1]})
            elif op[0] == "prefix":
                self.text.append("static constexpr ansichar b%s[] = %s;" % (nm, lit(op[1])))
                self.text.append("static constexpr Name %s{b%s, %d};" % (nm, nm, op[2]))
                f = ("Prefix", {"v": op[1], "n": op[2]})
            elif op[0] == "same":
                self.text.append(("static constexpr Name %s{%s};" if k % 2 else "static constexpr const Name & %s = %s;") % (nm, ref(op[1])))
                f = ("Same", {"i": op[1]})
            else:
                a = ", ".join(ref(i) for i in op[1])
                j = "JOIN_NAME(%s)" % a if op[1] else "Name::Concat<>::name"
                self.text.append(("static constexpr Name %s{%s};" if k % 2 else "static constexpr const Name & %s = %s;") % (nm, j))
                f = ("Concat", {"is": op[1]})
                ln = "(long)Name::Concat<%s>::length" % a
            rows.append('{"%s", R"x(,%s)x", &%s, &ctRead<%s>, %s}' % (f[0], json.dumps(f[1])[1:-1], nm, nm, ln))
        self.text.append("static const Entry e%d[] = {%s};" % (s, ",\n\t".join(rows)))
        self.scn.append("{e%d, %d}" % (s, len(ops)))
        return ["run %d" % s]

    def build(self, conf, name, **kw):
        d = conf.work.path(name + "-gen")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "generated_names.h"), "w") as f:
            f.write("\n".join(self.text) + "\nstatic const Scenario scenarios[] = {%s};\n" % ", ".join(self.scn))
        return build(conf.work, name, "names.cpp", extra=["-I", d], **kw)


def randnames(rng):
    ops, lens = [], []
    for k in range(rng.randint(2, 7)):
        w = rng.random()
        v = [rng.choice([65, 97, 0, 255, 92, 34, 37, 10, rng.randint(0, 255)]) for _ in range(rng.choice([0, 1, 2, 5, 9, rng.randint(0, 40)]))]
        if k and w < 0.5:
            ids = [rng.randint(1, k) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 7, 12]))]
            if sum(lens[i - 1] for i in ids) > 300:
                continue
            ops.append(["cat", ids]); lens.append(sum(lens[i - 1] for i in ids))
        elif k and w < 0.6:
            i = rng.randint(1, k)
            ops.append(["same", i]); lens.append(lens[i - 1])
        elif w < 0.7:
            n = rng.randint(0, len(v))
            ops.append(["prefix", v, n]); lens.append(n)
        else:
            ops.append([rng.choice(["lit", "lit", "held"]), v]); lens.append(len(v))
        if len(ops) <= k:
            break
    return ops


def bytenames():
    """every byte value as the only, the first and the last character of a name, and of the names joined from it"""
    return [[["lit", [c]], ["lit", [97, c]], ["held", [c, 97]], ["cat", [2, 1]], ["cat", [3, 1, 4, 2]]] for c in range(256)]


def run(conf):
    th = thorough()
    rng = random.Random(SEED * 7919 + 24)
    jobs = []
    B = lambda *a, **k: jobs.append((a, k))
    # names
    r = conf.model("MCNames", cfg_text(constants=dict(Letters="{97, 0}", MaxLit=1 if not th else 2, MaxNames=3, MaxJoin=2 if not th else 3, MaxLen=4 if not th else 5), invariants=["Laws"], properties=["Keep"], view="View", action_constraint="EdgeOut"), edges=True, workers=1)
    t = [[json.loads(l) for l in s] for s in tour(r["edges"], canon("[]"), maxlen=3)]
    total = len(t)
    conf.cov["graph_edges_found"] = conf.cov.get("graph_edges_found", 0) + len(r["edges"])
    if len(t) > (400 if not th else 2500):
        t = rng.sample(t, 400 if not th else 2500)
    conf.cov["name_programs"] = "%d of %d" % (len(t), total)
    parts = 4 if not th else 16
    progs = []
    rnd = [randnames(rng) for _ in range(60 if not th else 600)]
    rnd += bytenames()
    for k in range(parts):
        p = Names()
        progs.append((p, [p.scenario(s) for s in t[k::parts] + rnd[k::parts]]))
    with ThreadPoolExecutor(5) as ex:
        fs = [ex.submit(p.build, conf, "names%d" % k) for k, (p, _) in enumerate(progs)]
        exe = build(conf.work, "sarr", "sarr.cpp")
        for k, (f, (p, sc)) in enumerate(zip(fs, progs)):
            B("names-%d" % k, f.result(), sc, "NamesTrace", NCFG)

    # arrays
    def model(n, vals):
        r = conf.model("MCFixed", cfg_text(constants={"Slots": 2, "Values": vals, "N": n}, invariants=["TypeOK", "Length"], view="View", action_constraint="EdgeOut"), workers=1, edges=True)
        init = next(u for u, _, _ in r["edges"] if "live" not in u and "moved" not in u)
        conf.cov["graph_edges_replayed"] += len(r["edges"])
        return tour(r["edges"], init, 80)
    sc = model(3, "{5, 12}")
    for ty in ("i3", "t3"):
        B("graph-" + ty, exe, sc, "FixedTrace", TCFG, args=[ty])
    B("graph-i1", exe, model(1, "{5, 12, 7}"), "FixedTrace", TCFG, args=["i1"])
    B("graph-s2", exe, model(2, "{5, 12}"), "FixedTrace", TCFG, args=["s2"])
    n, ln = (40, 80) if not th else (1000, 300)
    for ty, w in WIDTH.items():
        B("random-" + ty, exe, [rand(rng, w, ln) for _ in range(n)], "FixedTrace", TCFG, args=[ty])
    conf.par(jobs)


RUN = {"C24": run}
