"""C15, C16, C17: allocators."""
import random
from vt import *

TCFG = cfg_text(spec="TraceSpec", constants={"Slots": 2}, invariants=["AllDisjoint", "AllAligned", "WithinCapacity"], postcondition="TraceAccepted")
H = 32
WRAP = ["-Wl,--wrap=%s" % f for f in ("posix_memalign", "malloc", "calloc", "realloc", "aligned_alloc", "memalign")]
TYPES = ((1, 1), (3, 1), (4, 4), (24, 8), (32, 32))
INL = ((4, 24, 8), (3, 5, 16), (1, 100, 64))


class AGen:
    """Histories over two allocators."""
    def __init__(self, rng, kinds, resize):
        self.rng, self.kinds, self.resize = rng, kinds, resize
        self.sc = []
        self.st = [None, None]
        self.held = {}

    def emit(self, s):
        # now and then the system has no memory to give
        if s.startswith(("alloc ", "realloc ")) and self.rng.random() < 0.08:
            s = "d" + s
        self.sc.append(s)

    def new(self, o):
        rng = self.rng
        k = rng.choice(self.kinds)
        n, bs, al = rng.choice([1, 2, 3, 5, 8, 13]), rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32, 33, 64, 100]), rng.choice([1, 2, 4, 8, 16, 32, 64, 128])
        g = dict(k=k, n=n, bs=bs, al=max(al, 8), big=bs)
        if k in ("pool", "mpool"):
            if rng.random() < 0.05:
                n = g["n"] = 0
            self.emit("new %d %s %d %d %d %d" % (o, k, n, bs, al, rng.random() < 0.4))
        elif k == "inl":
            w = rng.randrange(3)
            g.update(k="mpool", n=INL[w][0], bs=INL[w][1], al=INL[w][2], big=INL[w][1])
            self.emit("new %d inl %d %d" % (o, w, rng.random() < 0.4))
        elif k == "pooled":
            if rng.random() < 0.05:
                g.update(n=1024, bs=512, al=16, big=512)
                self.emit("new %d pooleddef" % o)
            else:
                self.emit("new %d pooled %d %d %d %d" % (o, n, bs, al, rng.choice([0, 1, 1, 1, 2, 3])))
        elif k == "binned":
            if rng.random() < 0.1:
                g.update(big=8 ** 5, al=8, min=8, inc=8); self.emit("new %d binneddef" % o)
            else:
                lo, li = rng.choice([2, 3, 4, 5]), rng.choice([1, 1, 2, 3])
                nb = rng.choice([1, 2, 3, 4])
                big = 1 << (lo + li * (nb - 1))
                self.emit("new %d binned %d %d %d %d %d" % (o, big * rng.choice([1, 2, 3, 4]), 1 << lo, 1 << (lo + li * nb), 1 << li, al))
                g.update(big=big, min=1 << lo, inc=1 << li)
        elif k == "own":
            w, ty = rng.randrange(3), rng.randrange(2)
            us, ua = ((1, 1), (24, 8))[ty]
            if w == 2:
                g.update(k="ansi", big=4800, al=256)
                self.emit("new %d own 2 %d" % (o, ty))
            else:
                bs = us * rng.choice([1, 2, 3, 8]) + (rng.choice([0, 0, 1, 7]) if rng.random() < 0.5 else 0)
                g.update(k=("mpool", "pooled")[w], bs=bs, big=bs // us * us)
                self.emit("new %d own %d %d %d %d %d%s" % (o, w, ty, n, bs, al, " %d" % rng.choice([0, 1, 2]) if w else ""))
            g["unit"] = (us, ua)
        else:
            g.update(big=5000, al=256)
            self.emit("new %d ansi" % o)
        self.st[o] = g

    def size(self, g):
        if "unit" in g:
            u = g["unit"][0]
            return self.rng.choice([u, g["big"], g["big"] + u, u * self.rng.randint(1, 20)])
        rng, b = self.rng, g["big"]
        lo = 1 if g["k"] == "binned" else 0
        w = rng.random()
        if w < 0.3:
            return max(lo, b)
        if w < 0.4:
            return max(lo, b - 1)
        if w < 0.5 and g["k"] != "ansi":
            return b + rng.choice([1, 2, 8, 1000])
        if w < 0.75:
            return max(lo, min(b, 1 << rng.randrange(14)) - rng.choice([0, 0, 1]))
        return rng.randint(max(lo, 1), max(1, min(b, 600)))

    def align(self, g):
        if "unit" in g:
            return g["unit"][1]
        w = self.rng.random()
        if w < 0.5:
            return 0
        a = 1 << self.rng.randrange(8)
        return a if w < 0.8 else min(a, g["al"])

    def step(self):
        rng = self.rng
        o = rng.randrange(2)
        g = self.st[o]
        if g is None:
            return self.new(o)
        mine = [h for h in self.held if self.held[h] == o]
        spare = [h for h in range(H) if h not in self.held]
        w = rng.random()
        if w < 0.015:
            self.emit("delete %d" % o); self.st[o] = None
            for h in mine:
                del self.held[h]
        elif w < 0.05 and g["k"] in ("pool", "pooled"):
            self.emit("foreign %d" % o)
        elif self.drain and mine or w < 0.3 and mine or not spare and mine:
            if rng.random() < (0.0 if g["k"] == "pool" else self.resize):
                self.re(o, g, rng.choice(mine))
            else:
                # first, last or any of the blocks held
                h = rng.choice([mine[0], mine[-1], rng.choice(mine)])
                self.emit("free %d %d" % (o, h)); del self.held[h]
                if not self.held:
                    self.drain = False
        elif spare and g["k"] == "pool":
            # a pool hands out whole blocks
            self.emit("alloc %d %d %d 1" % (o, spare[0], g["bs"])); self.held[spare[0]] = o
        elif spare and g["k"] != "pool":
            h = rng.choice([spare[0], rng.choice(spare)])
            if g["k"] == "binned" and rng.random() < self.resize * 0.3:
                self.churn(o, h)
            elif rng.random() < self.resize * 0.3:
                self.re(o, g, h)
            elif rng.random() < 0.3 and "unit" not in g:
                t = rng.randrange(5)
                self.emit("talloc %d %d %d %d" % (o, h, t, max(1, min(12, g["big"] // TYPES[t][0]) if rng.random() < 0.8 else rng.randint(1, 8)))); self.held[h] = o
            else:
                self.emit("alloc %d %d %d %d" % (o, h, self.size(g), self.align(g))); self.held[h] = o
            if len(self.held) > 20 and rng.random() < 0.2:
                self.drain = True

    drain = False

    def churn(self, o, h):
        """One block goes up the buckets again and again."""
        rng = self.rng
        g = self.st[o]
        lo = rng.choice([1, g["min"], max(1, g["big"] // (2 * g["inc"])), max(1, g["big"] // g["inc"])])
        hi = rng.choice([g["big"], g["big"] // g["inc"] + 1, lo + 1])
        for _ in range(rng.randint(2, 6)):
            self.emit("alloc %d %d %d 0" % (o, h, lo)); self.emit("realloc %d %d %d 0" % (o, h, min(hi, g["big"])))
            self.emit("free %d %d" % (o, h))

    def re(self, o, g, h):
        rng = self.rng
        if rng.random() < 0.3 and "unit" not in g:
            self.emit("trealloc %d %d %d %d" % (o, h, rng.randrange(5), rng.randint(1, 12)))
        elif h in self.held and rng.random() < 0.1:
            self.emit("realloc %d %d 0 0" % (o, h)); del self.held[h]
            return
        else:
            self.emit("realloc %d %d %d %d" % (o, h, max(1, self.size(g)), self.align(g)))
        self.held[h] = o

    def script(self, n):
        while len(self.sc) < n:
            self.step()
        return self.sc


def graph(conf, exe, kinds, resize, th):
    """Every reachable state of small allocators, every edge replayed."""
    jobs = []
    geo = []
    for k in kinds:
        if k == "pool":
            geo += [("pool", 3, 5, 4, 1, "{5}", "{1}", 1), ("pool", 4, 8, 16, 1, "{8}", "{1}", 1)]
        elif k == "mpool":
            geo += [("mpool", 2, 6, 8, 1, "{0, 1, 6, 7}", "{1, 8, 16}", 1), ("mpool", 3, 24, 32, 1, "{24, 25}", "{32}", 1)]
        elif k == "pooled":
            geo += [("pooled", 1, 9, 8, 0, "{9}", "{8}", 4), ("pooled", 2, 16, 16, 0, "{16, 17}", "{16}", 2), ("pooled", 2, 7, 4, 2, "{7}", "{1}", 3)]
    for g in geo:
        nh = g[1] + 1 if g[0] != "pooled" else min(4, g[1] * g[7])
        if th and g[0] == "pooled":
            nh += 1
        c = {"Kind": '"%s"' % g[0], "N": g[1], "BS": g[2], "AL": g[3], "NP": g[4], "Sizes": g[5], "Aligns": g[6], "MaxPools": max(g[7], -(-nh // g[1])),
             "Handles": "{%s}" % ", ".join(map(str, range(nh))), "Resize": "TRUE" if resize and g[0] != "pool" else "FALSE"}
        r = conf.model("MCAlloc", cfg_text(constants=c, invariants=["AbstractInvariants", "Partition", "RingOk"], properties=["Refines", "GrowsLate"],
                                           view="View", action_constraint="EdgeOut"), workers=1, edges=True)
        init = r["edges"][0][0]
        conf.cov["graph_edges_replayed"] += len(r["edges"])
        pre = "new 0 %s %d %d %d %d" % (g[0], g[1], g[2], g[3], g[4] if g[0] == "pooled" else 0)
        sc = [[pre] + s for s in tour(r["edges"], init, 60)]
        jobs.append(("graph-%s-%d-%d" % (g[0], g[1], g[2]), exe, sc))
    return jobs


def bulk(rng, kinds, resize, th):
    """Allocators with hundreds and thousands of blocks held at once."""
    out = []
    geo = []
    for k in kinds:
        if k in ("pool", "mpool"):
            for n, bs, al in ((70001, 3, 1), (66000, 24, 8), (300, 33, 16), (1027, 512, 64), (257, 100, 128), (129, 5000, 8)):
                for pl in ((0, 1) if n < 60000 else (rng.randrange(2),)):
                    geo.append((k, "%s %d %d %d %d" % (k, n, bs, al, pl), bs, al, n))
        elif k == "pooled":
            geo += [(k, "pooled 1 9 8 0", 9, 8, 400), (k, "pooled 3 16 16 1", 16, 16, 900), (k, "pooleddef", 512, 16, 2500), (k, "pooled 64 40 8 2", 40, 8, 3000), (k, "pooled 300 200 32 0", 200, 32, 900), (k, "pooled 66000 8 8 1", 8, 8, 66010)]
        elif k == "binned":
            geo += [(k, "binneddef", 8, 8, 8200), (k, "binneddef", 4000, 8, 40), (k, "binneddef", 500, 8, 300), (k, "binned 256 16 128 2 8", 16, 8, 300), (k, "binned 256 16 128 2 8", 60, 8, 100)]
        elif k == "own":
            geo += [(k, "own 1 0 50 24 8 1", 24, 1, 333), (k, "own 0 1 300 24 8", 24, 8, 400)]
        elif k == "ansi":
            geo += [(k, "ansi", 100, 32, 1500)]
    for k, new, bs, al, n in geo:
        big = n > 10000
        for _ in range((1 if big else 2) * (3 if th else 1)):
            size = bs if k == "pool" or rng.random() < 0.5 or k == "own" or big else max(1, bs - rng.randrange(max(1, bs // 8)))
            fill = lambda m, d="": sc.append(d + "fillup 0 %d %d %d" % (size, al, m))
            sc = ["new 0 " + new]
            single = 0

            def some():
                nonlocal single
                for h in range(single, single + 3):
                    sc.append("alloc 0 %d %d %d" % (h, size, al))
                for h in range(single, single + 3):
                    if rng.random() < resize and k != "pool" and k != "own":
                        sc.append("realloc 0 %d %d %d" % (h, size, al))
                single = (single + 3) % 24
                for h in rng.sample(range(24), 3):
                    sc.append("free 0 %d" % h)
            full = n + rng.choice([0, 5]) if k in ("pool", "mpool") else n
            if not big:
                fill(rng.choice([n // 3, 255, 256, 257, 1]))
                some()
            fill(full)
            some()
            for _ in range(1 if big else 3):
                sc.append("bulkfree 0 %d %d" % (rng.choice([2, 3, 7, 100] if not big else [2, 30000]), rng.randrange(3)))
                if not big:
                    some()
                fill(full if rng.random() < 0.6 or k in ("pool", "mpool") and rng.random() < 0.5 else n // 4)
            some()
            sc.append("bulkfree 0 1 %d" % rng.randrange(3))
            some()
            if not big:
                fill(n // 2); fill(n, "d"); some(); fill(n // 3); fill(n, "d"); some()
            out.append((k, big, sc))
    return out


def go(conf, salt, kinds, gkinds, resize):
    th = thorough()
    rng = random.Random(SEED * 7919 + salt)
    exe = build(conf.work, "alloc", "alloc.cpp", extra=WRAP)
    jobs = graph(conf, exe, gkinds, resize > 0, th)
    n, ln = (60, 120) if not th else (1500, 300)
    for k in kinds + [None]:
        kk = [k] if k else kinds
        m = n if k else 2 * n
        jobs.append(("random-%s" % (k or "mixed"), exe, [AGen(rng, kk, resize).script(rng.randint(20, ln)) for _ in range(m)]))
    many = bulk(rng, kinds, resize, th)
    jobs.append(("many", exe, [s for _, big, s in many if not big]))
    for i, (k, _, s) in enumerate(x for x in many if x[1]):
        jobs.append(("many-%s-%d" % (k, i), exe, [s]))
    conf.par([((nm, e, sc, "AllocTrace", TCFG), {}) for nm, e, sc in jobs])
    o2 = build(conf.work, "alloc-o2", "alloc.cpp", opt="-O2", extra=WRAP)
    conf.batch("random-mixed-O2", o2, [AGen(rng, kinds, resize).script(rng.randint(20, ln)) for _ in range(n)], "AllocTrace", TCFG)


RUN = {
    "C15": lambda c: go(c, 15, ["pool", "mpool", "inl", "pooled", "binned", "ansi", "own"], ["pool", "mpool", "pooled"], 0.0),
    "C16": lambda c: go(c, 16, ["pool", "mpool", "pooled"], ["pool", "mpool", "pooled"], 0.1),
    "C17": lambda c: go(c, 17, ["mpool", "inl", "pooled", "binned", "ansi", "own"], ["mpool", "pooled"], 0.6),
}
