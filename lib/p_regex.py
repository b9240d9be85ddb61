"""C18, C19: regular expressions."""
import random
from vt import *

TCFG = cfg_text(spec="TraceSpec", constants={"Slots": 4}, postcondition="TraceAccepted")
SPECIAL = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~".replace("_", "")
PLAIN = [chr(c) for c in range(1, 128) if chr(c) not in "()[{|?+*.^$\\"]
WORD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
ALL = [chr(c) for c in range(1, 128)]


def hx(s):
    return "".join("%02x" % ord(c) for c in s) or "-"


class PGen:
    """Well-formed patterns, with strings that are likely to match."""
    def __init__(self, rng, letters=None):
        self.rng = rng
        self.letters = letters

    def char(self):
        rng = self.rng
        if self.letters:
            return rng.choice(self.letters)
        return rng.choice("abcxyz") if rng.random() < 0.6 else rng.choice(ALL)

    def lit(self):
        """(text, sampler)"""
        c = self.char()
        if c in SPECIAL and self.rng.random() < 0.5 or c not in PLAIN:
            return "\\" + c, lambda: c
        return c, lambda: c

    def cls(self):
        """An item of a bracket expression: (text, characters)"""
        rng = self.rng
        w = rng.random()
        if w < 0.15:
            k = rng.choice("dDwWsS")
            return "\\" + k, [c for c in ALL if esc(k, c)]
        if w < 0.3:
            c = rng.choice(SPECIAL)
            return "\\" + c, [c]
        if w < 0.6:
            a, b = sorted((self.char(), self.char()))
            if rng.random() < 0.2:
                a, b = sorted((rng.choice(ALL), rng.choice(ALL)))
            if a in "\\]^" or a == "-" or b in "\\]":
                a, b = "a", "e"
            if rng.random() < 0.1:
                b = rng.choice([c for c in SPECIAL if c >= a] or ["~"])
                if b >= a:
                    return a + "-\\" + b, [c for c in ALL if a <= c <= b]
            return a + "-" + b, [c for c in ALL if a <= c <= b]
        c = self.char()
        if c in "\\]^-":
            return "\\" + c, [c]
        return c, [c]

    def brackets(self):
        rng = self.rng
        if rng.random() < 0.05:
            return "[^]", lambda: rng.choice(ALL)
        items = [self.cls() for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        t = ""
        for x, _ in items:
            # an escape is not the start of a range; nor is a range the start of another
            t += x
        if rng.random() < 0.1:
            t += "-"
            items.append(("-", ["-"]))
        chars = set(c for _, cs in items for c in cs)
        if rng.random() < 0.4:
            rest = [c for c in ALL if c not in chars]
            return "[^" + t + "]", lambda: rng.choice(rest) if rest else ""
        cs = sorted(chars)
        return "[" + t + "]", lambda: rng.choice(cs)

    def quant(self):
        """(text, min, max)"""
        rng = self.rng
        w = rng.random()
        if w < 0.25:
            return "*", 0, None
        if w < 0.5:
            return "+", 1, None
        if w < 0.65:
            return "?", 0, 1
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 7])
        if w < 0.78:
            return "{%d}" % n, n, n
        if w < 0.86:
            return "{%d,}" % n, n, None
        m = n + rng.choice([0, 1, 2, 3])
        return "{%s%d,%d}" % ("0" if rng.random() < 0.1 else "", n, m), n, m

    def atom(self, d):
        rng = self.rng
        w = rng.random()
        if d > 0 and w < 0.35:
            t, f = self.alt(d - 1)
            return "(" + t + ")", f
        if w < 0.65:
            return self.lit()
        if w < 0.8:
            return self.brackets()
        if w < 0.87:
            return ".", lambda: rng.choice(ALL) if rng.random() < 0.3 else self.char()
        if w < 0.94:
            k = rng.choice("dDwWsS")
            cs = [c for c in ALL if esc(k, c)]
            return "\\" + k, lambda: rng.choice(cs)
        return rng.choice(["^", "$", "\\b", "\\b", "\\B"]), lambda: rng.choice(["", "", "", " "])

    def rep(self, d):
        rng = self.rng
        t, f = self.atom(d)
        k = 1
        while rng.random() < (0.45 if k == 1 else 0.12) and k < 12:
            q, lo, hi = self.quant()
            g = f
            top = hi if hi is not None else lo + rng.choice([0, 1, 2, 3])
            k *= max(1, top)
            t += q
            f = lambda g=g, lo=lo, top=top: "".join(g() for _ in range(rng.randint(lo, top)))
        return t, f

    def seq(self, d):
        parts = [self.rep(d) for _ in range(self.rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        return "".join(t for t, _ in parts), lambda: "".join(f() for _, f in parts)

    def alt(self, d):
        parts = [self.seq(d) for _ in range(self.rng.choice([1, 1, 1, 2, 2, 3]))]
        rng = self.rng
        return "|".join(t for t, _ in parts), lambda: rng.choice(parts)[1]()

    def pattern(self):
        for _ in range(50):
            t, f = self.alt(self.rng.choice([0, 1, 2, 3, 4]))
            if len(t) < 120 and weight(t) < 3000:
                return t, f
        return "a", lambda: "a"

    def strings(self, f, n):
        rng = self.rng
        out = []
        for _ in range(n):
            s = f()
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                k = rng.randint(0, len(s))
                w = rng.randrange(4)
                if w == 0:
                    s = s[:k] + self.char() + s[k:]
                elif w == 1:
                    s = s[:k] + s[k + 1:]
                elif w == 2:
                    s = s[:k] + self.char() + s[k + 1:]
                else:
                    s = s[:k] + rng.choice(ALL) + s[k:]
            out.append(s[:60])
        return out


def esc(k, c):
    r = {"d": c in "0123456789", "w": c in WORD, "s": c in " \t\n\v\f\r"}[k.lower()]
    return r if k.islower() else not r


def weight(t):
    """Bound on the number of states a pattern compiles to."""
    n, st, last, i = 1, [], 1, 0
    total = [0]
    while i < len(t):
        c = t[i]
        if c == "\\":
            i += 1; last = 2; total[-1] += 2
        elif c == "(":
            total.append(2)
        elif c == ")" and len(total) > 1:
            last = total.pop() + 2; total[-1] += last
        elif c == "{":
            j = t.find("}", i)
            if j > 0:
                d = [int(x) for x in t[i + 1:j].split(",") if x.isdigit()]
                if d:
                    k = max(d + [1])
                    total[-1] += last * k; last *= k + 1
                    i = j
        else:
            last = 2; total[-1] += 2
        i += 1
    return sum(total)


class BGen:
    """Automata put together with the builder."""
    def __init__(self, rng):
        self.rng = rng

    def gen(self, d):
        """(words, sampler, states)"""
        rng = self.rng
        w = rng.random()
        if d == 0 or w < 0.25:
            k = rng.randrange(8)
            if k == 0:
                return "any", lambda: rng.choice("abc"), 2
            if k == 1:
                return "two", lambda: rng.choice("abc") + rng.choice("abc"), 2
            if k == 2:
                return "eps %d" % rng.randrange(2), lambda: "", 3
            if k == 3:
                a, b = rng.choice([(97, 98), (98, 99), (97, 99), (98, 97)])
                return "rng %d %d" % (a, b), lambda: rng.choice("abc"), 2
            c = rng.choice("abc")
            return "sym %d" % ord(c), lambda: c, 2
        if w < 0.5:
            a, b = self.gen(d - 1), self.gen(d - 1)
            return "cat %s %s" % (a[0], b[0]), lambda: a[1]() + b[1](), a[2] + b[2] + 4
        if w < 0.65:
            a, b = self.gen(d - 1), self.gen(d - 1)
            return "alt %s %s" % (a[0], b[0]), lambda: rng.choice((a, b))[1](), a[2] + b[2] + 4
        if w < 0.8:
            a = self.gen(d - 1)
            return "%s %s" % (rng.choice(["look", "nlook"]), a[0]), lambda: "", a[2] + 4
        lo, hi = rng.choice([(0, 1), (0, -1), (0, -1), (1, -1), (0, 0), (2, 2), (1, 2), (2, -1), (0, 3), (3, 3), (1, 1)])
        a = self.gen(d - 1)
        return "rep %d %d %s%s" % (lo, hi, a[0], " %d" % rng.randrange(2) if (lo, hi) == (0, -1) else ""), \
            lambda: "".join(a[1]() for _ in range(rng.randint(lo, hi if hi >= 0 else lo + 2))), a[2] * max(1, lo, hi) + 4

    def script(self, n, ns):
        sc = []
        for o in range(n):
            g = self.gen(self.rng.choice([1, 2, 3, 4, 5]))
            while g[2] > 400:
                g = self.gen(4)
            o %= 4
            sc.append("build %d %d %s" % (o, self.rng.randrange(2), g[0]))
            strs = PGen(self.rng, "abc").strings(g[1], ns)
            for s in strs:
                s = s[:12]
                sc.append("%s %d %s" % (self.rng.choice(["match", "match", "prefix"]), o, hx(s)))
            sc.append("exec %d %s %s %d" % (o, hx(strs[0][:12]), hx(strs[-1][:12]), self.rng.randrange(9)))
            sc.append("destroy %d" % o)
        return sc


def graph(conf, exe, levels):
    scs = []
    for lv, ml, atoms in levels:
        c = {"Letters": "{97, 98}", "MaxLen": ml, "Atoms": '"%s"' % atoms, "Level": lv, "UseSeen": "TRUE"}
        r = conf.model("MCRegex", cfg_text(constants=c, invariants=["Right", "WrittenDown"], properties=["Progress"], action_constraint="EdgeOut"),
                       workers=8, edges=True, heap="10g")
        by = {}
        for p, _, s in r["edges"]:
            by.setdefault(p, []).append(s)
        conf.cov["graph_edges_replayed"] += len(r["edges"])
        for p in sorted(by):
            sc = ["compile 0 " + hx(map(chr, json.loads(p)))]
            for s in sorted(by[p]):
                sc.append("match 0 " + hx(map(chr, json.loads(s))))
            scs.append(sc)
    # several patterns in one history
    return [sum((s + ["destroy 0"] for s in scs[k:k + 8]), []) for k in range(0, len(scs), 8)]


def large(rng, th):
    """Patterns of hundreds of characters, alternatives, repetitions and group members."""
    out = []

    def add(t, *ss):
        out.append(["compile 0 " + hx(t)] + ["match 0 " + hx(s) for s in ss])
    letters = "abcdefghijklmnopqrstuvwxyz"
    word = lambda n: "".join(rng.choice(letters) for _ in range(n))
    for n in (120, 260, 700):
        w = word(n)
        k = rng.randrange(n)
        v = w[:k] + ("a" if w[k] != "a" else "b") + w[k + 1:]
        add(w, w, w[:-1], w + "a", v, w[1:])
        add("(" + w[:n // 2] + ")(" + w[n // 2:] + ")*", w, w + w[n // 2:], w[:n // 2], v)
        add("[a-m]*" + w + ".*", w, "abc" + w + "xyz", v, "z" + w)
    for n in (70, 130, 300):
        ws = sorted({word(rng.choice([2, 3, 4])) for _ in range(n)})
        rng.shuffle(ws)
        bad = [x for x in (word(3) for _ in range(20)) if x not in ws][:3]
        add("|".join(ws), ws[0], ws[-1], ws[len(ws) // 2], rng.choice(ws), *bad)
        add("(" + "|".join(ws[:n // 2]) + ")*", ws[0] + ws[1], "".join(rng.choice(ws[:n // 2]) for _ in range(30)), "".join(ws[:20]) + "#", "")
    for n in (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300):
        for t, lo, hi in (("a{%d}" % n, n, n), ("a{%d,}" % n, n, None), ("a{3,%d}" % n, 3, n), ("(a|b){%d}" % n, n, n)):
            c = "a" if "b" not in t else "ab"
            add(t, *["".join(rng.choice(c) for _ in range(m)) for m in sorted({0, 2, 3, n - 1, n, n + 1, n + 9, 2 * n})])
        add("a*b{%d}c" % n, "b" * n + "c", "aa" + "b" * n + "c", "b" * (n - 1) + "c", "b" * (n + 1) + "c")
    for n in (40, 90):
        cs = rng.sample([c for c in ALL if c not in "[]\\^-"], n)
        esc_ = "".join(cs)
        for t in ("[" + esc_ + "]+", "[^" + esc_ + "]+"):
            ins, outs = (cs, [c for c in ALL if c not in cs])
            if t[1] == "^":
                ins, outs = outs, ins
            add(t, "".join(ins), rng.choice(ins), rng.choice(outs), ins[0] + rng.choice(outs), "".join(ins[:9]) + outs[-1])
    for n in (20, 60, 150):
        t = "".join("(%s)?" % rng.choice("ab") for _ in range(n))
        add(t, "a" * (n // 4), "", "ab" * (n // 8), "c", "a" * n, "b" * (n + 1))
        t = "".join(rng.choice(["a", "b?", "[ab]", "(a|b)", "\\w"]) for _ in range(n))
        add(t, "a" * n, "ab" * (n // 2), "a" * (n - 1), "a" * (n + 1), "c" * n)
    return out


def c18(conf):
    th = thorough()
    rng = random.Random(SEED * 7919 + 18)
    exe = build(conf.work, "regex", "regex.cpp")
    scs = graph(conf, exe, [(2, 2, "all"), (3, 2, "few")] if not th else [(2, 3, "all"), (3, 3, "few"), (3, 2, "all")])
    rnd = []
    for _ in range(500 if not th else 12000):
        sc = []
        for k in range(4):
            g = PGen(rng, rng.choice([None, None, "ab", "ab ", "a1_ -"]))
            t, f = g.pattern()
            ss = g.strings(f, 8)
            sc.append("compile %d %s" % (k, hx(t)))
            for s in ss:
                sc.append("match %d %s" % (k, hx(s)))
            if rng.random() < 0.3:
                sc.append("once %s %s" % (hx(t), hx(ss[0])))
        rnd.append(sc)
    built = [BGen(rng).script(6, 6) for _ in range(150 if not th else 4000)]
    # every character against every class of one character
    one = []
    for t in ["."] + ["\\" + k for k in "dDwWsS"] + ["[^]", "[a-z]", "[^a-z]", "[ -~]", "[^\\d]", "[\\w-]", "[!-/]", "[^\\s,]"]:
        one.append(["compile 0 " + hx(t)] + ["match 0 " + hx(c) for c in ALL] + ["match 0 -"])
    for c in ALL:
        t = c if c in PLAIN else "\\" + c
        one.append(["compile 0 " + hx(t)] + ["match 0 " + hx(x) for x in (c, chr(ord(c) % 127 + 1), c + c, "")])
    edge = []
    for a in ("a", "_", "1", " ", "-", ""):
        sc = []
        for k, t in enumerate(("\\b", "\\b.\\b", ".*\\b.*", ".\\B.")):
            sc.append("compile %d %s" % (k, hx(t)))
        for b in ("a", "Z", " ", "-", ""):
            for k in range(4):
                sc.append("match %d %s" % (k, hx(a + b)))
        edge.append(sc)
    conf.par([(("graph", exe, scs, "RegexTrace", TCFG), {}), (("random", exe, rnd, "RegexTrace", TCFG), {}), (("built", exe, built, "RegexTrace", TCFG), {}),
              (("large", exe, large(rng, th), "RegexTrace", TCFG), {"chunk": 6}),
              (("characters", exe, one + edge, "RegexTrace", TCFG), {})], n=2)


class Mess:
    """Histories of several patterns, well-formed or not."""
    SALT = "()[]{}|?+*.^$\\-,0123ab d"

    def __init__(self, rng):
        self.rng = rng
        self.pats = []

    def bad(self):
        rng = self.rng
        while True:
            w = rng.random()
            if w < 0.6:
                t = "".join(rng.choice(self.SALT) for _ in range(rng.randint(0, 14)))
            else:
                t = PGen(rng, rng.choice([None, "ab"])).pattern()[0]
                for _ in range(rng.randint(1, 3)):
                    k = rng.randint(0, len(t))
                    t = rng.choice([t[:k], t[k:], t[:k] + rng.choice(self.SALT) + t[k:], t[:k] + t[k + 1:]])
            # counts are bounded: what a pattern compiles to grows with them
            if weight(t) < 2000 and not re.search(r"\d\d\d", t):
                return t

    def strs(self, t):
        rng = self.rng
        k = rng.random()
        if k < 0.3:
            return "".join(rng.choice("ab01 d()[]{}") for _ in range(rng.randint(0, 8)))
        if k < 0.5:
            return t[:30]
        return "".join(rng.choice("ab") for _ in range(rng.choice([0, 1, 2, 3, 5, 17, 40])))

    def script(self, n):
        rng = self.rng
        live, sc = {}, []
        past = []
        for _ in range(n):
            o = rng.randrange(4)
            w = rng.random()
            if o not in live:
                if rng.random() < 0.25 and self.pats:
                    t, ss = rng.choice(self.pats)
                elif rng.random() < 0.6:
                    t = self.bad(); ss = [self.strs(t) for _ in range(4)]
                else:
                    g = PGen(rng, rng.choice([None, "ab"])); t, f = g.pattern(); ss = g.strings(f, 4)
                self.pats.append((t, ss))
                live[o] = (t, ss)
                sc.append("compile %d %s" % (o, hx(t)))
            elif w < 0.1:
                sc.append("destroy %d" % o); del live[o]
            elif w < 0.2:
                sc.append("show %d" % o)
            elif w < 0.3:
                sc.append("exec %d %s %s %d" % (o, hx(rng.choice(live[o][1])), hx(rng.choice(live[o][1])), rng.randrange(12)))
            elif w < 0.35:
                sc.append("prefix %d %s" % (o, hx(rng.choice(live[o][1]))))
            elif w < 0.42 and self.pats:
                t, ss = rng.choice(self.pats)
                sc.append("once %s %s" % (hx(t), hx(rng.choice(ss))))
            else:
                sc.append("match %d %s" % (o, hx(rng.choice(live[o][1]) if rng.random() < 0.7 else self.strs(live[o][0]))))
        return sc


def loops(rng, th):
    """Loops around what may be empty, long strings, deep nesting."""
    out = []
    base = ["a*", "a?", "", "(a|)", "\\b", "^", "$", "(a*b*)", "a{0}", "a{0,2}", "(a*)*", "[^a]*", "(|a)", "\\B"]
    for b in base:
        for q in ("*", "+", "{0,}", "{2,}", "{3}", "?", "{1,3}", "*+", "+*", "**", "?*", "{2}*", "*{2}"):
            for sh in ("(%s)%s", "(%s)%sb", "b(%s)%s", "((%s)%s)+"):
                t = sh % (b, q)
                out.append(["compile 0 " + hx(t)] + ["match 0 " + hx(s) for s in ("", "a", "aa", "b", "aab", "baa", "aaaaaaaaaaaaaaaaaaaaac", "a b a")] + ["show 0"])
    lens = (100, 400) if not th else (100, 400, 1500)
    for n in lens:
        for t in ("(a|aa)*", "(a*)*b", "(a|b|ab)*c", ".*.*.*=.*", "(.|\\w)+", "(a?){20}a{20}", "([a-z]+)*\\d", "(\\w+\\s?)*", "((a|b)+(b|a)+)*", "[^x]*x"):
            for s in ("a" * n, "a" * n + "b", "ab" * (n // 2) + "c", "word " * (n // 5), "a" * n + "=x"):
                out.append(["compile 0 " + hx(t), "match 0 " + hx(s), "match 0 " + hx(s[:-1])])
    for d in (1, 2, 5, 30, 60, 130, 300):
        for mid in ("a", "a|b", "a*", ""):
            for q in ("", "?"):
                t = "(" * d + mid + ")" * d + q
                out.append(["compile 0 " + hx(t), "match 0 " + hx("a"), "match 0 " + hx("b"), "match 0 " + hx(""), "show 0", "destroy 0"])
        for t in ("(" * d + "a", "a" + ")" * d, "[" * d, "(" * d, "a|" * d, "|" * d, "(a|" * d, "[^" * d + "]", "\\" * d, "{" * d, "a{" * d, "a?" * d + "a" * d, "*" * d, "a" + "?" * d):
            out.append(["compile 0 " + hx(t), "match 0 " + hx("a"), "match 0 " + hx("aa"), "match 0 " + hx(t), "match 0 -", "show 0"])
    return out


def c19(conf):
    th = thorough()
    rng = random.Random(SEED * 7919 + 19)
    exe = build(conf.work, "regex", "regex.cpp")
    c = {"Letters": "{97, 98}", "MaxLen": 2, "Atoms": '"all"' if th else '"few"', "Level": 3, "UseSeen": "TRUE"}
    conf.model("MCRegex", cfg_text(constants=c, invariants=["Right"], properties=["Progress"]), workers=8, heap="10g")
    # a search without memory need not end: the model tells them apart
    r = model_check(conf.work, "MCRegex", cfg_text(constants=dict(c, Level=2, Atoms='"few"', UseSeen="FALSE"), properties=["Progress"], extra="CONSTRAINT Small\n"),
                    workers=8, expect_ok=False)
    if "Progress" not in r["out"] or r["rc"] == 0:
        raise CheckError("the model does not notice a search that does not end")
    kw = {"run_kw": {"cpu_s": 10}}
    mess = [Mess(rng).script(rng.randint(20, 100)) for _ in range(400 if not th else 8000)]
    # all short texts over the characters that mean something
    short = []
    al = "()[]{}|*^\\-a" if not th else "()[]{}|*?^$.\\-,1ab"
    import itertools
    texts = ["".join(x) for n in range(0, 4) for x in itertools.product(al, repeat=n)]
    for k in range(0, len(texts), 12):
        sc = []
        for j, t in enumerate(texts[k:k + 12]):
            o = j % 4
            sc += (["destroy %d" % o] if j >= 4 else []) + ["compile %d %s" % (o, hx(t))] + ["match %d %s" % (o, hx(s)) for s in ("", "a", t)]
        short.append(sc)
    built = [BGen(rng).script(6, 6) for _ in range(60 if not th else 1500)]
    conf.par([(("histories", exe, mess, "RegexTrace", TCFG), kw), (("loops", exe, loops(rng, th), "RegexTrace", TCFG), kw),
              (("short", exe, short, "RegexTrace", TCFG), kw), (("built", exe, built, "RegexTrace", TCFG), kw),
              (("histories-storage", exe, mess[::3], "RegexTrace", TCFG), dict(kw, args=("track",))), (("built-storage", exe, built[::3], "RegexTrace", TCFG), dict(kw, args=("track",)))], n=2)


RUN = {"C18": c18, "C19": c19}
