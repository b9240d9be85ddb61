"""C03: string contents; C04: search and replace."""
import random
from vt import *
from slotgen import Gen, SLOTS

TCFG = cfg_text(spec="TraceSpec", constants={"Slots": SLOTS}, postcondition="TraceAccepted", invariants=["TypeOK"])


def hx(s):
    return "".join("%02x" % c for c in s) or "-"


class StrGen(Gen):
    p_slot = 0.12

    def __init__(self, rng, alpha, maxlen=60):
        super().__init__(rng); self.alpha, self.maxlen = alpha, maxlen
        self.nul = 0 in alpha

    def w(self, n=6):
        return [self.rng.choice(self.alpha) for _ in range(self.rng.randint(0, n))]

    def create(self, o):
        rng = self.rng
        c = rng.randrange(7)
        xs = self.w(12)
        if c == 0:
            self.emit("new %d" % o); xs = []
        elif c == 1:
            self.emit("frombuf %d %s %d" % (o, hx(xs), rng.randint(0, len(xs)))); xs = xs[:int(self.sc[-1].split()[-1])]
        elif c == 2:
            n, ch = rng.choice([0, 1, 2, 7, 8, 15, 16, 31, 33]), rng.choice(self.alpha)
            self.emit("fill %d %d %d" % (o, n, ch)); xs = [ch] * n
        elif c == 3:
            self.emit("cap %d %d" % (o, rng.choice([0, 1, 5, 16]))); xs = []
        elif c == 4:
            self.emit("name %d %s" % (o, hx(xs)))
        else:
            self.emit("fromc %d %s" % (o, hx(xs)))
        self.v[o] = xs

    NUMS = [("i32", ["0", "-1", "7", "2147483647", "-2147483648", "100000"]), ("u32", ["0", "4294967295", "2147483648"]),
            ("i64", ["9223372036854775807", "-9223372036854775808", "-5", "4294967296"]), ("u64", ["18446744073709551615", "0", "99"]),
            ("f32", ["1.500000", "-0.250000", "1024.000000", "0.000000"]), ("f64", ["0.125000", "-3.750000", "123456789.000000", "1" + "0" * 22 + ".000000"]),
            ("arr", ["[]", "[5]", "[1, 2, 3]"])]

    def newstr(self, o):
        """a new string computed from live ones; o is a free slot"""
        rng = self.rng
        live = [p for p in range(SLOTS) if self.kind[p] == "live"]
        p = rng.choice(live); v = self.v[p]
        c = rng.randrange(5 if self.nul else 6)      # printing ends at a terminator
        if c == 0:
            q = rng.choice(live)
            self.emit("plus %d %d %d" % (o, p, q)); r = v + self.v[q]
        elif c == 1:
            xs = self.w()
            self.emit("plusc %d %d %s" % (o, p, hx(xs))); r = v + xs
        elif c == 2:
            pos = rng.randint(0, len(v)); n = rng.randint(0, len(v) - pos)
            self.emit("substr %d %d %d %d" % (o, p, n, pos)); r = v[pos:pos + n]
        elif c == 3:
            self.emit("lower %d %d" % (o, p)); r = [x + 32 if 65 <= x <= 90 else x for x in v]
        elif c == 4:
            self.emit("upper %d %d" % (o, p)); r = [x - 32 if 97 <= x <= 122 else x for x in v]
        else:
            w, n = rng.randrange(4), rng.randint(-999, 999)
            self.emit("format %d %d %d %d" % (o, w, p, n))
            a, b = {0: ("", ""), 1: ("<", ">%d" % n), 2: ("%d%%" % n, ""), 3: ("q", "z")}[w]
            r = [ord(x) for x in a] + v + [ord(x) for x in b]
        self.kind[o] = "live"; self.v[o] = r

    def ops(self, o):
        rng, v = self.rng, self.v[o]
        live = [p for p in range(SLOTS) if self.kind[p] == "live"]
        none = [p for p in range(SLOTS) if self.kind[p] == "none"]
        w = rng.random()
        if len(v) > self.maxlen:
            xs = self.w(10)
            if rng.random() < 0.5:
                self.emit("assignc %d %s" % (o, hx(xs))); self.v[o] = xs
            else:
                n = len(v) - 5
                self.emit("splc %d 2 %d %s" % (o, n, hx(xs))); v[2:2 + n] = xs
        elif none and w < 0.2:
            self.newstr(none[0])
        elif w < 0.3:
            xs = self.w()
            self.emit("appc %d %s" % (o, hx(xs))); v += xs
        elif w < 0.36:
            c = rng.choice(self.alpha)
            self.emit("appch %d %d" % (o, c)); v.append(c)
        elif w < 0.42:
            p = rng.choice(live)
            self.emit("apps %d %d" % (o, p)); self.v[o] = v + self.v[p]
        elif w < 0.45 and not self.nul:
            i = rng.randint(0, len(v))
            self.emit("appown %d %d" % (o, i)); self.v[o] = v + v[i:]
        elif w < 0.55:
            ty, ts = rng.choice(self.NUMS)
            txt = rng.choice(ts); how = rng.choice(["appnum", "printnum", "plusnum"])
            xs = [ord(c) for c in txt]
            self.emit("%s %d %s %s" % (how, o, ty, hx(xs))); self.v[o] = xs if how == "printnum" else v + xs
        elif w < 0.68:
            pos = rng.randint(0, len(v)); n = rng.randint(0, min(len(v) - pos, rng.choice([0, 2, 60])))
            c = rng.randrange(4)
            if c == 0:
                p = rng.choice(live); xs = list(self.v[p])
                self.emit("spls %d %d %d %d" % (o, pos, n, p))
            elif c == 1 and not self.nul:
                i = rng.randint(0, len(v)); xs = v[i:]
                self.emit("splown %d %d %d %d" % (o, pos, n, i))
            else:
                xs = self.w()
                self.emit("splc %d %d %d %s" % (o, pos, n, hx(xs)))
            self.v[o] = v[:pos] + xs + v[pos + n:]
        elif w < 0.73 and v:
            i, c = rng.randrange(len(v)), rng.choice(self.alpha)
            self.emit("set %d %d %d" % (o, i, c)); v[i] = c
        elif w < 0.78:
            xs = self.w(20)
            self.emit("assignc %d %s" % (o, hx(xs))); self.v[o] = xs
        elif w < 0.9 and not self.nul:
            p = rng.choice(live)
            if rng.random() < 0.3:
                m = min(len(v), len(self.v[p])); st = rng.randint(0, m)
                self.emit("cmpn %d %d %d %d" % (o, p, rng.randint(0, m - st), st))
            else:
                self.emit("cmp %d %d" % (o, p))
        else:
            self.emit("query %d" % o)


class FindGen(StrGen):
    def ops(self, o):
        rng, v = self.rng, self.v[o]
        live = [p for p in range(SLOTS) if self.kind[p] == "live"]
        none = [p for p in range(SLOTS) if self.kind[p] == "none"]
        pat = self.w(rng.choice([1, 2, 3, 5]))
        if v and rng.random() < 0.6:
            i = rng.randrange(len(v)); pat = v[i:i + rng.randint(1, 4)]
        st = rng.choice([0, 0, rng.randint(0, len(v)), len(v), len(v) + 1, len(v) + 7])
        w = rng.random()
        if w < 0.2 or len(v) > self.maxlen:
            xs = self.w(25)
            self.emit("assignc %d %s" % (o, hx(xs))); self.v[o] = xs
        elif none and w < 0.25:
            self.newstr(none[0])
        elif w < 0.35:
            self.emit("findch %d %d %d" % (o, rng.choice(self.alpha), st))
        elif w < 0.5:
            n = rng.choice([0, rng.randint(1, len(pat))]) if pat else 0
            self.emit("findc %d %s %d %d" % (o, hx(pat), st, n))
        elif w < 0.6:
            self.emit("finds %d %s %d" % (o, hx(pat), st))
        elif w < 0.65:
            self.emit("findof %d %d %d" % (o, rng.choice(live), st))
        elif w < 0.75:
            how = rng.randrange(3 if pat else 2)
            self.emit("findall %d %s %d" % (o, hx(pat), how))
        elif w < 0.97:
            y = self.w(rng.choice([0, 1, 3, 6]))
            self.emit("repl %d %s %s" % (o, hx(pat), hx(y))); self.v[o] = rep(v, pat, y)
        else:
            p, q = rng.choice(live), rng.choice(live)
            self.emit("replof %d %d %d" % (o, p, q)); self.v[o] = rep(v, self.v[p], self.v[q])


def rep(v, x, y):
    return list(bytes(v).replace(bytes(x), bytes(y))) if x else list(v)


AB = [97, 98]
NUL = [0, 97, 98]       # contents in which the terminator is a character like any other
ABC = [97, 98, 99, 65, 66, 67, 48]
ALL = list(range(1, 128))
BYTES = list(range(1, 256))
EDGE = [1, 32, 47, 48, 57, 58, 64, 65, 66, 89, 90, 91, 95, 96, 97, 98, 121, 122, 123, 126, 127, 128, 129, 192, 223, 224, 254, 255]


def every_code(search):
    """Every byte value, alone and at every place of a short string, through the operations whose result depends on it."""
    out = []
    for c in BYTES:
        m = [97, c, 90, c]
        s = ["frombuf 0 %s 1" % hx([c]), "frombuf 1 %s 4" % hx(m)]
        if search:
            for d in {c, c ^ 32, c ^ 128, 97} - {0}:
                s += ["findch 1 %d 0" % d, "findch 1 %d 2" % d, "findc 1 %s 0 0" % hx([d]), "findall 1 %s 0" % hx([d]), "findall 1 %s 2" % hx([d]), "finds 1 %s 1" % hx([d, 90])]
            s += ["repl 1 %s %s" % (hx([c]), hx([99, c])), "query 1", "repl 1 %s %s" % (hx([c, 90]), hx([c])), "query 1", "replof 1 0 0", "query 1"]
        else:
            s += ["query 0", "query 1"]
            for op in ("lower", "upper"):
                s += ["%s 2 1" % op, "query 2", "cmp 1 2", "cmp 2 1", "cmpn 1 2 3 1", "delete 2"]
            for d in sorted({c, c ^ 32, c ^ 128, max(c - 1, 1), min(c + 1, 255), 97, 90} - {0}):
                s += ["frombuf 2 %s 1" % hx([d]), "cmp 0 2", "cmp 2 0", "delete 2"]
            s += ["set 1 0 %d" % c, "appch 1 %d" % c, "query 1", "delete 0", "fill 0 3 %d" % c, "query 0", "format 2 1 0 5", "query 2"]
        out.append(s)
    return out


def small(conf, slots, maxlen, search):
    cfg = cfg_text(constants={"Slots": slots, "MaxLen": maxlen, "Search": "TRUE" if search else "FALSE"},
                   invariants=["TypeOK", "Laws"], constraint="Small", view="View", action_constraint="EdgeOut")
    r = conf.model("MCStr", cfg, workers=1, edges=True)
    init = next(u for u, _, _ in r["edges"] if "live" not in u and "moved" not in u)
    conf.cov["graph_edges_replayed"] += len(r["edges"])
    return tour(r["edges"], init, 60)


def run03(conf):
    exe = build(conf.work, "string", "string.cpp")
    rng = random.Random(SEED * 7919 + 3)
    th = thorough()
    conf.batch("graph", exe, small(conf, 2, 2 if not th else 3, False), "StrTrace", TCFG)
    n, ln = (120, 100) if not th else (2500, 300)
    for nm, al, ml in (("ab", AB, 20), ("abc", ABC, 70), ("all", ALL, 70), ("edge", EDGE, 30), ("nul", NUL, 30)):
        conf.batch("random-" + nm, exe, [StrGen(rng, al, ml).script(rng.randint(15, ln)) for _ in range(n)], "StrTrace", TCFG)
    conf.batch("codes", exe, every_code(False), "StrTrace", TCFG)
    # long contents, beyond every fixed buffer
    big = []
    for n in (1000, 1022, 1023, 1024, 1025, 2000, 3000):
        s = ["fill 0 %d 120" % n, "format 1 %d 0 -42" % rng.randrange(4), "query 1", "delete 1"]
        for w in range(4):
            s += ["format 1 %d 0 17" % w, "delete 1"]
        s += ["apps 0 0", "query 0", "splc 0 %d %d 616263" % (n // 2, n // 3), "query 0", "printnum 0 i32 2d37", "query 0"]
        big.append(s)
    conf.batch("long", exe, big, "StrTrace", TCFG, chunk=30)
    # around every power of two
    pw = []
    for n in (2047, 2048, 4094, 4096, 8191, 8192, 16384):
        s = ["mute 1", "fill 0 %d 121" % n, "set 0 %d 65" % (n - 1), "set 0 0 66"]
        for w in range(4):
            s += ["mute 0", "format 1 %d 0 -42" % w, "mute 1", "query 1", "delete 1"]
        s += ["plus 1 0 0", "upper 2 1", "mute 0", "query 2", "mute 1", "delete 2", "plusc 2 0 7a", "query 2", "apps 1 2", "splc 1 %d 1 -" % n, "mute 0", "query 1", "query 2"]
        pw.append(s)
    conf.batch("powers", exe, pw, "StrTrace", TCFG, chunk=1)
    # numbers of hundreds of digits, whatever they are printed with
    dg = []
    for n in (2.0 ** 60, -2.0 ** 200, 2.0 ** 400, 2.0 ** 420 - 2.0 ** 380, -2.0 ** 1000, 1.7976931348623157e308, -1.7976931348623157e308, 2.0 ** 127, -2.0 ** 126):
        for ty in ("f64", "f32"):
            if ty == "f32" and abs(n) > 2.0 ** 127:
                continue
            tx = hx([ord(c) for c in "%f" % n])
            dg.append(["fromc 0 6162", "printnum 0 %s %s" % (ty, tx), "query 0", "appnum 0 %s %s" % (ty, tx), "query 0", "plusnum 0 %s %s" % (ty, tx), "query 0", "printnum 0 i32 2d37", "query 0",
                       "fill 1 %d 120" % rng.choice((0, 1, 500)), "appnum 1 %s %s" % (ty, tx), "printnum 1 %s %s" % (ty, tx), "query 1"])
    conf.batch("digits", exe, dg, "StrTrace", TCFG, chunk=4)
    # contents beyond what a 16-bit position can hold; looked at now and then
    huge = []
    for n in (33000, 65535, 65600) if not th else (33000, 65535, 65536, 70000, 140000):
        k = n - 5
        s = ["mute 1", "fill 0 %d 120" % n, "set 0 %d 65" % k, "appc 0 6162", "splc 0 %d 2 414243" % (k - 3), "copy 1 0", "cmp 0 1", "set 1 %d 66" % (k + 1), "cmp 0 1", "cmp 1 0", "cmpn 0 1 4 %d" % k,
             "cmpn 0 1 %d 0" % k, "substr 2 0 12 %d" % (k - 8), "mute 0", "query 2", "mute 1", "delete 2", "substr 2 1 %d 0" % (n - 2), "set 2 0 122", "cmp 2 1", "delete 2", "upper 2 0", "splc 2 3 %d -" % (n - 40), "mute 0", "query 2", "query 0", "mute 1",
             "assign 1 0", "splc 1 1 1 -", "appch 1 67", "printnum 2 i32 2d37", "apps 2 0", "mute 0", "query 1", "query 2", "delete 1", "format 1 %d 0 -35" % rng.randrange(4), "mute 1", "query 1"]
        huge.append(s)
    conf.batch("huge", exe, huge, "StrTrace", TCFG, chunk=1)


def run04(conf):
    exe = build(conf.work, "string", "string.cpp")
    rng = random.Random(SEED * 7919 + 4)
    th = thorough()
    conf.batch("graph", exe, small(conf, 1, 4 if not th else 6, True), "StrTrace", TCFG)
    n, ln = (120, 100) if not th else (3000, 300)
    for nm, al, ml in (("ab", AB, 40), ("abc", ABC, 60), ("all", ALL, 60), ("edge", EDGE, 20), ("nul", NUL, 25)):
        conf.batch("random-" + nm, exe, [FindGen(rng, al, ml).script(rng.randint(15, ln)) for _ in range(n)], "StrTrace", TCFG)
    conf.batch("codes", exe, every_code(True), "StrTrace", TCFG)
    # long texts: many occurrences, occurrences far from the start, patterns longer than any small buffer
    ls = []
    for n in (300, 700, 1400) if not th else (300, 700, 1400, 3000):
        base = [rng.choice([120, 121]) for _ in range(n)]
        for pat, y in (([97, 98], [99]), ([97, 97], [97]), ([97], [97, 97, 98]), ([97] * 20, []), ([97] + [98] * 270, [99] * 300), ([97, 98], [97, 98] * 150), ([97, 98], [99] * 254 + [97, 98] * 3)):
            t = list(base)
            for k in range(rng.choice([1, 3, 30])):
                i = rng.choice([0, n - len(pat), rng.randrange(n)]); t[max(0, i):max(0, i) + len(pat)] = pat
            s = ["mute 1", "frombuf 0 %s %d" % (hx(t), len(t))]
            s += ["finds 0 %s %d" % (hx(pat), st) for st in (0, 1, n // 2, len(t) - len(pat), len(t) - len(pat) + 1, len(t))]
            s += ["findc 0 %s %d 0" % (hx(pat), n // 3), "findch 0 %d 0" % pat[-1], "findall 0 %s 0" % hx(pat), "findall 0 %s 1" % hx(pat), "mute 0", "repl 0 %s %s" % (hx(pat), hx(y)), "query 0"]
            ls.append(s)
        ls.append(["mute 1", "fill 0 %d 97" % n, "findall 0 61 0", "findall 0 61 2", "findall 0 616161 0", "findall 0 %s 0" % hx([97] * (n - 3)), "finds 0 %s 0" % hx([97] * (n + 1)), "fromc 1 6161", "fromc 2 62", "replof 0 1 2", "mute 0", "query 0"])
    conf.batch("long", exe, ls, "StrTrace", TCFG, chunk=5)
    hs = []
    for n in (33000, 65600):
        s = ["mute 1", "fill 0 %d 120" % n] + ["set 0 %d 97" % k for k in (n - 3, n - 2, n // 2)]
        s += ["findch 0 97 0", "findch 0 97 %d" % (n // 2 + 1), "findc 0 6161 0 0", "finds 0 616178 %d" % (n - 9), "findall 0 61 0", "findall 0 6161 1", "findc 0 %s 0 0" % hx([120] * 40 + [97]), "repl 0 6161 62", "findch 0 98 0", "mute 0", "query 0"]
        hs.append(s)
    conf.batch("huge", exe, hs, "StrTrace", TCFG, chunk=1)


RUN = {"C03": run03, "C04": run04}
