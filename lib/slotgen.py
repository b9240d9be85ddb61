"""Random scripts over object slots: value-semantics operations plus component operations."""
SLOTS = 3


class Gen:
    """Subclass: ops(o) appends one component operation on live slot o; self.v[o] is the model value."""
    empty = ()

    def __init__(self, rng):
        self.rng = rng
        self.kind = ["none"] * SLOTS
        self.v = [None] * SLOTS
        self.sc = []

    def emit(self, s):
        self.sc.append(s)

    def create(self, o):
        self.emit("new %d" % o)
        self.v[o] = self.fresh()

    def fresh(self):
        return []

    def dup(self, v):
        return list(v)

    p_slot = 0.22

    def slotop(self, o):
        """value-semantics operation on a live slot; returns False if none applied"""
        rng = self.rng
        others = [p for p in range(SLOTS) if p != o and self.kind[p] == "live"]
        w = rng.random()
        if w < 0.35:
            p = rng.choice(others + [o])
            self.emit("assign %d %d" % (o, p)); self.v[o] = self.dup(self.v[p])
        elif w < 0.6 and others:
            p = rng.choice(others)
            self.emit("massign %d %d" % (o, p)); self.v[o] = self.v[p]; self.kind[p] = "moved"; self.v[p] = None
        elif w < 0.8:
            self.emit("query %d" % o)
        else:
            self.emit("delete %d" % o); self.kind[o] = "none"

    def step(self):
        rng = self.rng
        o = rng.randrange(SLOTS)
        live = [p for p in range(SLOTS) if self.kind[p] == "live"]
        if self.kind[o] == "none":
            c = rng.random()
            if c < 0.4 or not live:
                self.create(o)
            elif c < 0.75:
                p = rng.choice(live)
                self.emit("copy %d %d" % (o, p)); self.v[o] = self.dup(self.v[p])
            else:
                p = rng.choice(live)
                self.emit("move %d %d" % (o, p)); self.v[o] = self.v[p]; self.kind[p] = "moved"; self.v[p] = None
            self.kind[o] = "live"
        elif self.kind[o] == "moved":
            c = rng.random()
            if c < 0.2:
                self.emit("query %d" % o)
            elif live and c < 0.7:
                p = rng.choice(live)
                self.emit("massign %d %d" % (o, p)); self.kind[o] = "live"; self.v[o] = self.v[p]; self.kind[p] = "moved"; self.v[p] = None
            else:
                self.emit("delete %d" % o); self.kind[o] = "none"
        elif rng.random() < self.p_slot:
            self.slotop(o)
        else:
            self.ops(o)

    def script(self, length):
        while len(self.sc) < length:
            self.step()
        for o in range(SLOTS):
            if self.kind[o] != "none":
                self.emit("query %d" % o)
        return self.sc
