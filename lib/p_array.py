"""C01: arrays."""
import random
from vt import *

SLOTS = 3


def gen(rng, length, vals=9, maxlen=40, mem=False, iters=True, copies=True):
    """A random script; tracks lengths so that every call respects its documented precondition."""
    kind = ["none"] * SLOTS
    n = [0] * SLOTS
    sc = []
    x = lambda: rng.randint(1, vals)
    while len(sc) < length:
        o = rng.randrange(SLOTS)
        if kind[o] == "none":
            live = [p for p in range(SLOTS) if kind[p] == "live"]
            c = rng.random()
            if c < 0.3 or not live:
                m = rng.choice([0, 0, 1, 2, 3, 5, 8, 12])
                w = rng.random()
                if w < 0.3 or not copies:
                    sc.append("new %d" % o); n[o] = 0
                elif w < 0.55:
                    sc.append(("newcap %d %d " % (o, rng.choice([0, 1, 2, 5]) if m else rng.randint(1, 5))) + " ".join(str(x()) for _ in range(m))); n[o] = m
                elif w < 0.85:
                    m = max(1, m)
                    sc.append(("newbuf %d %d " % (o, rng.choice([0, 0, 1, 4]))) + " ".join(str(x()) for _ in range(m))); n[o] = m
                else:
                    sc.append("newstatic %d %d %d %d" % (o, x(), x(), x())); n[o] = 3
                kind[o] = "live"
            elif c < 0.7 and copies:
                p = rng.choice(live)
                sc.append("copy %d %d" % (o, p)); kind[o] = "live"; n[o] = n[p]
            else:
                p = rng.choice(live)
                sc.append("move %d %d" % (o, p)); kind[o] = "live"; n[o] = n[p]; kind[p] = "moved"; n[p] = 0
            continue
        others = [p for p in range(SLOTS) if p != o and kind[p] == "live"]
        if kind[o] == "moved":
            c = rng.random()
            if c < 0.2:
                sc.append("query %d" % o)
            elif others and c < 0.7:
                p = rng.choice(others)
                sc.append("massign %d %d" % (o, p)); kind[o] = "live"; n[o] = n[p]; kind[p] = "moved"; n[p] = 0
            else:
                sc.append("delete %d" % o); kind[o] = "none"
            continue
        w = rng.random()
        k = n[o]
        xs = lambda: " ".join(str(x()) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        if k > maxlen:
            sc.append(rng.choice(["empty", "clear", "wipe", "areset"]) + " %d" % o); n[o] = 0
        elif w < 0.12:
            v = xs(); i = rng.choice([0, k, rng.randint(0, k), max(0, k - 1)])
            sc.append("ins %d %d %s" % (o, i, v)); n[o] += len(v.split())
        elif w < 0.20:
            v = xs(); sc.append("insfirst %d %s" % (o, v)); n[o] += len(v.split())
        elif w < 0.36:
            v = xs(); sc.append("%s %d %s" % (rng.choice(["inslast", "inslast", "add", "push"]) if len(v.split()) == 1 else "inslast", o, v)); n[o] += len(v.split())
        elif w < 0.385 and k and copies:
            m = rng.choice([1, 1, 2, 3])
            if rng.random() < 0.15:
                sc.append("initown %d %d %d" % (o, k, rng.randrange(k))); m = 1
            else:
                sc.append("insown %d %d %s" % (o, rng.choice([0, k, k, rng.randint(0, k)]), " ".join(str(rng.choice([0, k - 1, rng.randrange(k)])) for _ in range(m))))
            n[o] += m
        elif w < 0.42 and k:
            sc.append("%s %d %d %d" % (rng.choice(["set", "setit"]), o, rng.randrange(k), x()))
        elif w < 0.45:
            i = rng.choice([k, k, k + 1, k + 3, rng.randint(0, k)])
            sc.append("grow %d %d %d %d" % (o, i, x(), x())); n[o] = max(k, i + 1)
        elif w < 0.48:
            i = rng.choice([k, rng.randint(0, k)])
            sc.append("getinit %d %d %d" % (o, i, x())); n[o] = max(k, i + 1)
        elif w < 0.57:
            i = rng.randint(0, k); m = rng.choice([0, 1, 1, 2, 3, k - i]); m = max(0, min(m, k - i))
            sc.append("rem %d %d %d" % (o, i, m)); n[o] -= m
        elif w < 0.70 and k:
            c = rng.choice(["remfirst", "remlast", "pop", "popfirst", "poplast"])
            sc.append("%s %d%s" % (c, o, " %d" % rng.randrange(k) if c == "pop" else "")); n[o] -= 1
        elif w < 0.72:
            sc.append(rng.choice(["empty", "clear", "wipe", "areset"]) + " %d" % o); n[o] = 0
        elif w < 0.78:
            sc.append("query %d" % o)
        elif w < 0.82 and k:
            sc.append("iter %d %d %d" % (o, rng.randrange(k), rng.randrange(k)))
        elif w < 0.90 and copies:
            p = rng.choice(others + [o])
            sc.append("assign %d %d" % (o, p)); n[o] = n[p]
        elif w < 0.95 and others:
            p = rng.choice(others)
            sc.append("massign %d %d" % (o, p)); n[o] = n[p]; kind[p] = "moved"; n[p] = 0
        elif w < 0.97:
            sc.append("delete %d" % o); kind[o] = "none"; n[o] = 0
    for o in range(SLOTS):
        if kind[o] != "none":
            sc.append("query %d" % o)
    return sc


def model(conf, maxlen=2, slots=2):
    cfg = cfg_text(constants={"Slots": slots, "Items": "{1, 2}", "MaxLen": maxlen}, invariants=["TypeOK"],
                   constraint="Small", view="View", action_constraint="EdgeOut")
    r = conf.model("MCArray", cfg, workers=1, edges=True)
    init = next(u for u, _, _ in r["edges"] if '"none"' in u and "live" not in u and "moved" not in u)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    return tour(r["edges"], init, 60)


TCFG = cfg_text(spec="TraceSpec", constants={"Slots": SLOTS}, postcondition="TraceAccepted", invariants=["TypeOK"])


def long_script(op, m, copies):
    """contents are shown at some sizes only; every result is"""
    s = ["new 0", "mute 1"]
    for j in range(m):
        s.append("%s 0 %d" % (op, j * 7 % 1009))
        if j + 1 in (100, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, m):
            s += ["mute 0", "query 0", "mute 1"]
    s += ["rem 0 %d %d" % (m // 2, m // 3), "remfirst 0", "pop 0 5", "mute 0", "query 0"]
    s += ["copy 1 0", "rem 0 3 100", "assign 1 0", "query 1", "move 2 1", "query 2"] if copies else ["move 2 0", "new 1", "massign 1 2", "query 1", "massign 0 1"]
    return s + ["mute 1"] + ["pop 0 %d" % (3 * j % 30) for j in range(40)] + ["remlast 0"] * 25 + ["mute 0", "query 0", "empty 0", "query 0"]


def run(conf):
    exe = build(conf.work, "array", "array.cpp")
    sc = model(conf, *((2, 2) if not thorough() else (3, 2)))
    for ty in ("int", "tracked"):
        conf.batch("graph-" + ty, exe, sc, "ArrayTrace", TCFG, args=[ty])
    rng = random.Random(SEED * 7919 + 1)
    n, ln = (150, 120) if not thorough() else (2500, 300)
    for ty in ("int", "tracked", "semi", "block", "byte", "f64"):
        rs = [gen(rng, rng.randint(10, ln)) for _ in range(n)]
        conf.batch("random-" + ty, exe, rs, "ArrayTrace", TCFG, args=[ty])
    conf.batch("random-moveonly", exe, [gen(rng, rng.randint(10, ln), copies=False) for _ in range(n)], "ArrayTrace", TCFG, args=["moveonly"])
    # growth: long runs of appends and front insertions across many reallocations
    gs = []
    for k in range(4 if not thorough() else 20):
        s = ["new 0"]
        for j in range(70 if not thorough() else 300):
            if j and rng.random() < 0.3:
                s.append("insown 0 %d %d" % (rng.choice([0, j, j, rng.randint(0, j)]), rng.randrange(j)))
            else:
                s.append(rng.choice(["inslast 0 %d", "insfirst 0 %d", "ins 0 %d %%d" % rng.randint(0, j)]) % rng.randint(1, 99))
        gs.append(s + ["query 0"])
    for ty in ("int", "tracked", "block", "byte"):
        conf.batch("growth-" + ty, exe, gs, "ArrayTrace", TCFG, args=[ty])
    # insertion beyond the end, inside and outside of the storage there is
    fs = []
    for k in range(40 if not thorough() else 400):
        m = rng.randint(0, 4)
        s = ["new 0" if not m else "newcap 0 %d %s" % (rng.choice([1, 6, 12]), " ".join(str(rng.randint(1, 9)) for _ in range(m)))]
        for j in range(rng.randint(3, 25)):
            w = rng.random()
            if w < 0.5:
                v = [str(rng.randint(1, 9)) for _ in range(rng.choice([1, 1, 2, 3]))]
                i = m + rng.choice([0, 1, 1, 2, 3, 7, 20]); m = i + len(v)
                s.append("insfar 0 %d %s" % (i, " ".join(v)))
            elif w < 0.7 and m:
                i = rng.randint(0, m - 1); d = rng.randint(1, m - i); m -= d
                s.append("rem 0 %d %d" % (i, d))
            elif w < 0.8:
                s.append("empty 0"); m = 0
            elif w < 0.9:
                s.append("ins 0 %d 7" % rng.randint(0, m)); m += 1
            else:
                s += ["copy 1 0", "insfar 1 %d 8" % (m + 1), "assign 0 1", "delete 1"]; m += 2
        fs.append(s)
    for ty in ("int", "byte", "f64", "tracked", "block"):
        conf.batch("far-" + ty, exe, fs, "ArrayTrace", TCFG, args=[ty])
    # long arrays: every size up to far beyond any small buffer, and block moves of tens of thousands of items
    for ty, m in (("int", 1300), ("tracked", 530), ("moveonly", 300)) if not thorough() else (("int", 9000), ("tracked", 2100), ("moveonly", 1100)):
        conf.batch("long-" + ty, exe, [long_script(op, m, ty != "moveonly") for op in ("inslast", "add", "push", "insfirst")], "ArrayTrace", TCFG, args=[ty], chunk=1)
    hs = []
    for n in (32767, 32768, 65535, 65536, 70001):
        xs = " ".join(str((j * 31 + j // 7) % 1000) for j in range(n))
        s = ["%s 0 %d %s" % (rng.choice(["newbuf", "newcap"]), rng.choice([0, 1]), xs), "mute 1"]
        s += ["add 0 5", "ins 0 2 7", "ins 0 %d 8" % (n - 3), "rem 0 %d 3" % (n // 2), "copy 1 0", "rem 0 1 %d" % (n - 1000), "mute 0", "query 0", "mute 1", "assign 0 1"]
        hs.append(s + ["insfirst 0 4", "delete 1", "mute 0", "query 0"])
    conf.batch("huge", exe, hs, "ArrayTrace", TCFG, args=["int"], chunk=1)


RUN = {"C01": run}
