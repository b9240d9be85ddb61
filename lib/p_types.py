"""C26: types and generic helpers."""
import json, random
from vt import *

TCFG = cfg_text(spec="TraceSpec", postcondition="TraceAccepted")
BASES = {"void": "void", "bool": "bool", "char": "char", "schar": "signed char", "uchar": "unsigned char", "wchar": "wchar_t", "short": "short", "ushort": "unsigned short",
         "int": "int", "uint": "unsigned", "long": "long", "ulong": "unsigned long", "llong": "long long", "ullong": "unsigned long long", "float": "float", "double": "double",
         "null": "decltype(nullptr)", "thing": "Thing", "enum": "Choice", "union": "Either", "member": "int Thing::*"}
WORDS = ["p", "c", "v", "l", "r", "a", "a2", "a3", "f", "fi", "fe", "fn"]


def cstr(t):
    return json.dumps(json.dumps(t))


class Prog:
    """A C++ program whose scenarios ask the library about types."""

    def __init__(self):
        self.text, self.fn, self.named = [], [], {}

    def name(self, chain):
        """a type as a chain of constructors on a basic type, innermost first"""
        k = tuple(chain)
        if k not in self.named:
            n = "T%d" % len(self.named)
            self.named[k] = n
            if len(k) == 1:
                self.text.append("using %s = %s;" % (n, BASES[k[0]]))
            else:
                inner = self.name(k[:-1])
                self.text.append("using %s = mk_%s<%s>;" % (n, k[-1], inner))
        return self.named[k]

    def scenario(self, lines):
        n = "s%d" % len(self.fn)
        self.text.append("static void %s()\n{\n\t%s\n}" % (n, "\n\t".join(lines)))
        self.fn.append("{%s}" % n)
        return ["run %d" % (len(self.fn) - 1)]

    def row(self, chain, t):
        return "row<%s>(%s);" % (self.name(chain), cstr(t))

    def two(self, a, ta, b, tb, cond):
        return "two<%s, %s, %s>(%s, %s);" % (self.name(a), self.name(b), "true" if cond else "false", cstr(ta), cstr(tb))

    def classes(self, ks):
        s = len(self.fn)
        lines = []
        for i, k in enumerate(ks, 1):
            n = "K%d_%d" % (s, i)
            body = []
            if k["member"]:
                body.append("K%d_%d m;" % (s, k["member"]))
            if k["data"]:
                body.append("int d;")
            if k["virt"]:
                body.append("virtual void w%d() {}" % i)
            w = lambda sig, user, rest: body.append(sig + (rest if user else " = default;"))
            w("%s()" % n, k["ctor"], " {}")
            w("%s(const %s &)" % (n, n), k["copy"], " {}")
            w("%s & operator=(const %s &)" % (n, n), k["assign"], " { return *this; }")
            if k["move"]:
                body.append("%s(%s &&) {}" % (n, n))
            w("~%s()" % n, k["dtor"], " {}")
            self.text.append("struct %s%s { %s };" % (n, " : K%d_%d" % (s, k["base"]) if k["base"] else "", " ".join(body)))
            bases = ", ".join("(bool)IsBaseOf<K%d_%d, %s>::value" % (s, b, n) for b in range(1, i + 1))
            derived = ", ".join("(bool)IsBaseOf<%s, K%d_%d>::value" % (n, s, b) for b in range(1, i + 1))
            lines.append("cls<%s>(%s).raw(\"bases\", flags({%s})).raw(\"derived\", flags({%s})).emit();" % (n, cstr(k), bases, derived))
        return self.scenario(lines)

    def build(self, conf, name, **kw):
        d = conf.work.path(name + "-gen")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "generated_types.h"), "w") as f:
            f.write("\n".join(self.text) + "\nstatic const Scenario scenarios[] = {%s};\n" % ", ".join(self.fn))
        return build(conf.work, name, "types.cpp", extra=["-I", d], san=(), libs=False, **kw)


def randclasses(rng):
    ks = []
    p = rng.choice([0.1, 0.3])
    f = lambda: rng.random() < p
    for i in range(rng.randint(2, 7)):
        b, m = (rng.choice([0, rng.randint(1, i)]) if i else 0), (rng.choice([0, 0, rng.randint(1, i)]) if i else 0)
        ks.append({"base": b, "member": m, "data": rng.random() < 0.5, "virt": rng.random() < 0.1, "ctor": f(), "copy": f(), "assign": f(), "dtor": f(), "move": f()})
    return ks


def values(rng, n, ln, across):
    x = lambda: rng.choice([0, 1, -1, 5, rng.randint(-100, 100), rng.randint(-100, 100)])
    sc = ["fill " + " ".join(str(x()) for _ in range(n))]
    for _ in range(ln):
        w = rng.random()
        i, j = rng.randint(1, n), rng.randint(1, n)
        if w < 0.4:
            sc.append("swap %d %d" % (i, j))
        elif across and w < 0.6:
            sc.append("across %d %d %d" % (i, x(), rng.randrange(4)))
        elif w < 0.98:
            sc.append("cmp %d %d" % (i, j))
        else:
            sc.append("fill " + " ".join(str(x()) for _ in range(n)))
    return sc


def helpers(conf, th, rng):
    r = conf.model("MCValues", cfg_text(constants=dict(N=3, Domain="{0, 1, 7}" if not th else "{0, 1, 7, 8}"), invariants=["Order"], properties=["Bag"], view="View", action_constraint="EdgeOut"), workers=1, edges=True)
    ed = [(json.loads(u), json.loads(op)) for u, op, _ in r["edges"]]
    by = {}
    for u, op in ed:
        by.setdefault(json.dumps(u), []).append(op)
    conf.cov["graph_edges_replayed"] += len(ed)
    graph = []
    for u, ops in by.items():
        s = []
        for op in ops:
            s += ["fill " + " ".join(map(str, json.loads(u))), "%s %d %d" % tuple(op)]
        graph.append(s)
    exe = build(conf.work, "values", "values.cpp")
    jobs = []
    for ty in ("int", "i8", "i64", "double", "string", "ordered", "tracked", "moveonly"):
        n, ln = (20, 60) if not th else (400, 200)
        sc = graph + [values(rng, rng.randint(1, 8), ln, ty in ("int", "i8", "i64", "double")) for _ in range(n)]
        if ty == "int":
            sc.append(["debug"])
        jobs.append((("values-" + ty, exe, sc, "ValuesTrace", TCFG), {"args": [ty]}))
    return jobs


def run(conf):
    th = thorough()
    rng = random.Random(SEED * 7919 + 26)
    sets = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    chain = {}      # canonical term -> a chain of constructors

    def explore(bases, depth, words):
        r = conf.model("MCTypes", cfg_text(constants=dict(Bases=sets(bases), Depth=depth, Words=sets(words)), invariants=["Canonical", "Laws", "Kinds"], view="View", action_constraint="EdgeOut"), edges=True, workers=1)
        for b in bases:
            chain.setdefault(json.dumps([b]), [b])
        ed = [(json.loads(u), json.loads(op), json.loads(v)) for u, op, v in r["edges"]]
        rows = []
        key = lambda t: json.dumps(t)
        out = {}
        for u, k, v in ed:
            out.setdefault(key(u), []).append((k, v))
        todo = [key([b]) for b in bases]
        seen = set(todo)
        for u in todo:
            for k, v in out.get(u, []):
                rows.append((chain[u] + [k], v))
                chain.setdefault(key(v), chain[u] + [k])
                if key(v) not in seen:
                    seen.add(key(v)); todo.append(key(v))
        conf.cov["graph_edges_replayed"] += len(rows)
        return [([b], [b]) for b in bases] + rows
    rows = explore(sorted(BASES), 1, WORDS)
    rows += explore(["int", "void", "thing"], 2 if not th else 3, WORDS)
    rows += explore(["char"], 3 if not th else 4, ["p", "c", "v", "l", "a2", "f"])
    terms = [json.loads(k) for k in chain]
    ch = lambda t: chain[json.dumps(t)]
    pairs = []
    for _ in range(500 if not th else 4000):
        a = rng.choice(terms)
        b = rng.choice([a, rng.choice(terms), a[1:] or a, [w for w in a if w not in ("c", "v")], a[:1] + a[2:]])
        # pointers, and what they point to
        if rng.random() < 0.4 and json.dumps(["p"] + a) in chain:
            a, b = rng.choice([(["p"] + a, a), (["p"] + a, b), (["p"] + b, a)])
        if json.dumps(a) in chain and json.dumps(b) in chain:
            pairs.append((a, b))
    # every qualification of a pointer, of what it points to, and of what is asked for
    quals = ([], ["c"], ["v"], ["c", "v"])
    for b in ("int", "void", "thing"):
        for q in quals:
            chain.setdefault(json.dumps(q + [b]), [b] + q[::-1])
            for x in quals:
                t = x + ["p"] + q + [b]
                chain.setdefault(json.dumps(t), [b] + q[::-1] + ["p"] + x[::-1])
                pairs += [(t, u + [b]) for u in quals] + [(t, ["p"] + q + [b])] + ([(t, ["int"])] if b != "int" else [])
    parts = 7 if not th else 40
    progs, jobs = [], []
    rng.shuffle(rows)
    for k in range(parts):
        p = Prog()
        sc = []
        mine = rows[k::parts]
        for i in range(0, len(mine), 25):
            sc.append(p.scenario([p.row(c, t) for c, t in mine[i:i + 25]]))
        prs = pairs[k::parts]
        for i in range(0, len(prs), 25):
            sc.append(p.scenario([p.two(ch(a), a, ch(b), b, rng.random() < 0.5) for a, b in prs[i:i + 25]]))
        for _ in range(12):
            sc.append(p.classes(randclasses(rng)))
        progs.append((p, sc))
    with ThreadPoolExecutor(7) as ex:
        fs = [ex.submit(p.build, conf, "types%d" % k) for k, (p, _) in enumerate(progs)]
        for k, (f, (p, sc)) in enumerate(zip(fs, progs)):
            jobs.append((("types-%d" % k, f.result(), sc, "TypesTrace", TCFG), {"shards": 1}))
    conf.par(jobs + helpers(conf, th, rng))


RUN = {"C26": run}
