"""C11: sorting."""
import itertools, random
from vt import *

DIV = 1000
TCFG = cfg_text(spec="TraceSpec", constants={"Div": DIV}, postcondition="TraceAccepted")
TYPES = ("raw", "array", "list", "tracked", "tlist", "string")


def items(keys):
    return [k * DIV + j for j, k in enumerate(keys)]


def small(maxlen, nkeys, rng):
    """every sequence over a few keys up to a length: every range, every comparator for the short ones"""
    out = []
    for n in range(maxlen + 1):
        for ks in itertools.product(range(1, nkeys + 1), repeat=n):
            s = []
            xs = " ".join(map(str, items(ks)))
            full = [(0, n)]
            ranges = [(a, b) for a in range(n + 1) for b in range(a, n + 1)] if n <= 3 else full + [tuple(sorted(rng.sample(range(n + 1), 2)))]
            for lo, hi in ranges:
                for c in (range(6) if n <= 3 else [0, rng.randrange(1, 6)]):
                    w = rng.random()
                    s += ["fill " + xs, "args " + " ".join(map(str, range(500, 500 + n))), "sort %d %d %d" % (lo, hi, c), "fill " + xs,
                          "args " + " ".join(map(str, range(500, 500 + n))), "argsort %d %d %d" % (lo, hi, c)]
                    if w < 0.3 or n <= 2:
                        s += ["fill " + xs, "part %d %d %d %d" % (lo, hi, c, rng.randint(0, nkeys + 1) * DIV)]
            out.append(s)
    # bundle
    return [sum(out[k:k + 12], []) for k in range(0, len(out), 12)]


def rand(rng, n):
    s = []
    nk = rng.choice([1, 2, 3, 10, 1000])
    ks = [rng.randint(1, nk) for _ in range(n)]
    style = rng.randrange(5)
    if style == 1:
        ks.sort()
    elif style == 2:
        ks.sort(reverse=True)
    elif style == 3:
        ks = sorted(ks[: n // 2]) + sorted(ks[n // 2:], reverse=True)
    s.append("fill " + " ".join(map(str, items(ks))))
    s.append("args " + " ".join(str(rng.randint(1, 9999)) for _ in range(n)))
    for _ in range(rng.randint(1, 4)):
        lo, hi = sorted((rng.randint(0, n), rng.randint(0, n)))
        if rng.random() < 0.5:
            lo, hi = 0, n
        c = rng.randrange(6)
        w = rng.random()
        if w < 0.45:
            s.append("sort %d %d %d" % (lo, hi, c))
        elif w < 0.85:
            s.append("argsort %d %d %d" % (lo, hi, c))
        else:
            s.append("part %d %d %d %d" % (lo, hi, c, rng.randint(0, nk + 1) * DIV))
    return s


WCFG = cfg_text(spec="TraceSpec", constants={"Div": 1}, postcondition="TraceAccepted")


def wide(rng, n):
    s = []
    for _ in range(3):
        m = rng.randint(0, n)
        xs = [rng.choice([0, 30, rng.randint(0, 30)]) for _ in range(m)]
        lo, hi = sorted((rng.randint(0, m), rng.randint(0, m))) if rng.random() < 0.4 else (0, m)
        s += ["fill " + " ".join(map(str, xs)), "args " + " ".join(map(str, range(500, 500 + m))), "%s %d %d %d" % (rng.choice(["sort", "argsort"]), lo, hi, rng.choice([0, 0, 0, 1, 4]))]
    return s


HCFG = cfg_text(spec="TraceSpec", constants={"Div": 100000}, postcondition="TraceAccepted")


def huge(rng, n):
    """more items than 16 bits can count"""
    ks = [rng.randint(1, 9900) for _ in range(n)]
    xs = " ".join(str(k * 100000 + j) for j, k in enumerate(ks))
    ar = " ".join(str(j % 40009) for j in range(n))
    out = []
    for op, lo, hi, c in (("sort", 0, n, 0), ("argsort", 0, n, 1), ("argsort", n // 9, n, 4), ("part", 1, n - 1, "0 %d" % (5000 * 100000))):
        out.append(["fill " + xs] + (["args " + ar] if op == "argsort" else []) + ["%s %d %d %s" % (op, lo, hi, c)])
    return out


def run(conf):
    th = thorough()
    rng = random.Random(SEED * 7919 + 11)
    cfg = cfg_text(constants={"Div": 100, "Keys": "{1, 2, 3}", "MaxLen": 4 if not th else 5, "Comparators": "{0, 1, 2, 3}"},
                   invariants=["AlwaysPermutation", "AlwaysInStep", "DoneIsSorted"], properties=["Terminates"])
    conf.model("MCSort", cfg, workers=8)
    exe = build(conf.work, "sort", "sort.cpp")
    sc = small(4 if not th else 6, 3, rng)
    jobs = [(("small-" + ty, exe, sc, "SortTrace", TCFG), {"args": [ty], "chunk": 8000}) for ty in TYPES]
    n = 60 if not th else 1500
    for ty in TYPES:
        jobs.append((("random-" + ty, exe, [rand(rng, rng.choice([2, 3, 5, 17, 40, 90])) for _ in range(n)] + [rand(rng, 250) for _ in range(2)] + [rand(rng, 700 if not th else 2500)], "SortTrace", TCFG), {"args": [ty]}))
    # the library's own comparator on values spread over the whole range of the type; elements of 200 bytes
    for ty in ("i32", "i64", "u32", "f64", "i8"):
        jobs.append((("wide-" + ty, exe, [wide(rng, rng.choice([2, 3, 5, 17, 40])) for _ in range(2 * n)], "SortTrace", WCFG), {"args": [ty, "wide"]}))
    jobs.append((("random-block", exe, [rand(rng, rng.choice([2, 3, 5, 17, 40, 90])) for _ in range(n)], "SortTrace", TCFG), {"args": ["block"]}))
    for ty in ("raw", "list", "block") if th else ("raw", "list"):
        jobs.append((("huge-" + ty, exe, huge(rng, 66003) + huge(rng, 3001), "SortTrace", HCFG), {"args": [ty, "div100000"], "chunk": 1, "heap": "3g"}))
    conf.par(jobs)


RUN = {"C11": run}
