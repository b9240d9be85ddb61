"""C14: atomic objects."""
import itertools, random
from vt import *

TCFG = cfg_text(spec="TraceSpec", postcondition="Accepted")
INT = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64}
PTR = ("pc", "pi", "pl", "ps", "pp")
RAW = {"ri8": 8, "ru16": 16, "ri32": 32, "ru64": 64, "ri64": 64, "rp": 64}
ALL = list(INT) + list(PTR) + list(RAW)
KA = ["load", "loadr", "conv", "store", "storer", "assign", "preinc", "postinc", "predec", "postdec", "addeq", "subeq"]
KR = ["load", "loadr", "store", "storer", "fadd", "fsub", "xchg"]
KP = ["load", "loadr", "store", "storer", "xchg"]
ARG = {"store", "storer", "assign", "addeq", "subeq", "fadd", "fsub", "xchg"}
RELAXED = {"loadr", "storer"}


def kinds(ty):
    return KP if ty == "rp" else KR if ty in RAW else KA


def width(ty):
    return INT.get(ty) or RAW.get(ty) or 64


def value(rng, w):
    top = 1 << w
    return rng.choice([0, 1, 2, top - 1, top - 2, top // 2, top // 2 - 1, (1 << min(w, 16)) - 1, (1 << min(w, 32)) - 1, rng.randrange(top)])


def op(rng, ty, k=None, o=0):
    k = k or rng.choice(kinds(ty))
    a = 0
    if k in ARG:
        w = width(ty)
        if ty in PTR and k in ("addeq", "subeq"):
            a = rng.choice([0, 1, 2, 3, 7, -1, -5, 1000, 100000]) % (1 << 64)
        elif ty in RAW and k in ("fadd", "fsub"):
            a = rng.choice([0, 1, 2, 5, 100, -1, -3]) % (1 << w)
        else:
            a = value(rng, w)
    return "%s:%d:%x" % (k, o, a)


def init(rng, ty, n=1):
    return "init %s %s" % (ty, " ".join("%x" % value(rng, width(ty)) for _ in range(n)))


def stepping(rng, types, reps):
    """every ordered pair of operations of every type, preempted at every instruction"""
    sc = []
    for ty in types:
        ks = kinds(ty)
        for k1 in ks:
            s = []
            for k2 in ks:
                for _ in range(reps):
                    s += [init(rng, ty), "th " + op(rng, ty, k1), "th " + op(rng, ty, k2), "step"]
                    s += [init(rng, ty), "th " + op(rng, ty, k1) + " " + op(rng, ty), "th " + op(rng, ty, k2) + " " + op(rng, ty), "step", "split 7"]
            for _ in range(reps):
                s += [init(rng, ty), "th " + op(rng, ty, k1), "th " + op(rng, ty), "th " + op(rng, ty), "step 5"]
            sc.append(s)
    return sc


def threads(rng, ty, mode, reps):
    no = rng.choice([1, 1, 2, 3])
    nt, nops = rng.choice([(2, 2), (2, 3), (3, 2), (3, 1)] + ([(2, 4)] if mode == "timed" else []))
    ks = [k for k in kinds(ty) if no == 1 or k not in RELAXED]
    rmw = [k for k in ks if k not in ("load", "loadr", "conv", "store", "storer")]
    if rmw and rng.random() < 0.5:
        ks = rng.sample(rmw, min(len(rmw), 2))
    s = [init(rng, ty, no)]
    for _ in range(nt):
        s.append("th " + " ".join(op(rng, ty, rng.choice(ks), rng.randrange(no)) for _ in range(nops)))
    return s + ["%s %d" % (mode, reps)]


def litmus(rng, ty, reps):
    """sequentially consistent accesses to two or three objects: store buffering, message passing, write-to-read"""
    st = [k for k in kinds(ty) if k in ("store", "assign")]
    ld = [k for k in kinds(ty) if k in ("load", "conv")]
    out = []
    for a in st:
        for b in ld:
            v = ["%x" % rng.randrange(1, 200) for _ in range(4)]
            z = "init %s 0 0 0" % ty
            out.append([z, "th %s:0:%s %s:1:0" % (a, v[0], b), "th %s:1:%s %s:0:0" % (a, v[1], b), "par %d" % reps])
            out.append([z, "th %s:0:%s %s:1:%s" % (a, v[0], a, v[1]), "th %s:1:0 %s:0:0" % (b, b), "par %d" % reps])
            out.append([z, "th %s:0:%s %s:1:0" % (a, v[0], b), "th %s:1:%s %s:2:0" % (a, v[1], b), "th %s:2:%s %s:0:0" % (a, v[2], b), "par %d" % reps])
    return out


def run(conf):
    th = thorough()
    rng = random.Random(SEED * 7919 + 14)
    inv = ["NoLostUpdate", "UniqueTickets", "ChainOfExchanges", "ReturnedTookEffect"]

    def cfg(split, kinds, threads, ops, args="{1}"):
        return cfg_text(constants={"Threads": threads, "Base": 3, "Limbs": 2, "MaxOps": ops, "Kinds1": kinds, "Args": args, "Split": split}, invariants=inv)
    conf.model("MCAtomic", cfg("FALSE", '{"postinc", "load", "xchg"}', "{1, 2, 3}" if th else "{1, 2}", 2), workers=8, heap="6g")
    conf.model("MCAtomic", cfg("FALSE", '{"preinc", "subeq", "store", "assign"}', "{1, 2}", 2, "{1, 2}"), workers=8, heap="6g")
    r = model_check(conf.work, "MCAtomic", cfg("TRUE", '{"postinc"}', "{1, 2}", 1), expect_ok=False)
    if "NoLostUpdate is violated" not in r["out"] and "UniqueTickets is violated" not in r["out"]:
        raise CheckError("the split read-modify-write is not rejected by the model")
    exe = build(conf.work, "atomic", "atomic.cpp", san=())
    opt = build(conf.work, "atomic-o2", "atomic.cpp", san=(), opt="-O2")
    rk = {"run_kw": {"cpu_s": 60}}
    jobs = []
    for nm, x in (("", exe), ("-O2", opt)):
        jobs.append((("step" + nm, x, stepping(rng, ALL, 1 if not th else 6), "AtomicTrace", TCFG), {"chunk": 8000, **rk}))
    conf.par(jobs, n=1)
    jobs = []
    for nm, x in (("", exe), ("-O2", opt)):
        R = 6000 if not th else 30000
        n = 6 if not th else 40
        jobs.append((("threads" + nm, x, [threads(rng, ty, "par", R) for ty in ALL for _ in range(n)], "AtomicTrace", TCFG), {"shards": 2, "confirm": False, "chunk": 8000, **rk}))
        jobs.append((("timed" + nm, x, [threads(rng, ty, "timed", 60 if not th else 300) for ty in ALL for _ in range(2 if not th else 10)], "AtomicTrace", TCFG), {"shards": 2, "confirm": False, "chunk": 8000, **rk}))
        jobs.append((("litmus" + nm, x, [s for ty in ALL for s in litmus(rng, ty, 8000 if not th else 100000)], "AtomicTrace", TCFG), {"shards": 2, "confirm": False, "chunk": 8000, **rk}))
    conf.par(jobs, n=1)


RUN = {"C14": run}
