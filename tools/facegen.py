"""Scenarios for simulators used directly (spec SimFace)."""
import random


class Face:
    def __init__(self, r, cfg, dense):
        self.r, self.cfg, self.ph, self.now, self.eg, self.es, self.dense = r, cfg, "created", cfg["t"], set(), set(), dense

    def var(self, refs):
        return self.r.randrange(4), self.r.choice(refs)

    def mod(self):
        return self.r.choice(["none 0", "none 0", "add %d" % self.r.randint(1, 9), "const %d" % self.r.randint(0, 9), "dt %d" % self.r.randint(0, 3)])

    def op(self):
        r = self.r
        k = r.random()
        some = lambda s, refs: r.choice(sorted(s)) if s and r.random() < 0.93 else self.var(refs)
        if k < (0.22 if self.ph == "created" else 0.08):
            if r.random() < 0.5:
                v = self.var(range(6))
                self.eg.add(v)
                return "exg %d %d" % v
            v = some(self.es, [2, 3, 4]) if r.random() < 0.4 else self.var([2, 3, 4])
            self.es.add(v)
            return "exs %d %d" % v
        if k < 0.36:
            return "set %d %d %d" % (*some(self.es, [2, 3, 4]), r.randint(0, 40))
        if k < 0.56:
            return "get %d %d" % some(self.eg, range(6))
        if k < 0.65:
            return "im %d %d %s" % (*some(self.es, [2, 3, 4]), self.mod())
        if k < 0.73 and self.eg:
            return "om %d %d %s" % (*r.choice(sorted(self.eg)), self.mod())
        if k < 0.77:
            return "list"
        f = r.choice([7, 8]) if r.random() < 0.04 else 0
        if self.ph == "error":
            return None
        if self.ph == "created":
            if r.random() < 0.6:
                return None
            self.ph = "error" if f else "init"
            return "setup %d %d %d %d" % (self.cfg["t"], self.cfg["stop"], self.cfg["tol"], f)
        if self.ph == "init":
            if r.random() < 0.7:
                return "iter"
            self.ph = "error" if f else "sim"
            return "start %d" % f
        dt = r.choice([1, 1, 2, 5, 17])
        t = self.now
        self.now += dt
        if f:
            self.ph = "error"
        return "step %d %d %d %d" % (t, dt, f, r.choice([0, 0, 0, 0, 1, 2]))


def suite(seed, n, nops=(20, 90)):
    out = []
    for i in range(n):
        r = random.Random("%s-face-%d" % (seed, i))
        cfg = {"t": r.choice([0, 0, 3, -7]), "stop": r.choice([-1, 100000]), "tol": r.choice([-1, 2])}
        fs = [Face(r, cfg, i % 2) for _ in range(2)]
        lines, cur = [], 0
        for _ in range(r.randint(*nops)):
            if r.random() < 0.15:
                cur = 1 - cur
                lines.append("w %d" % (cur + 1))
            o = fs[cur].op()
            if o:
                lines.append(o)
        lines.append("list")
        out.append(("face%d" % i, cfg, lines))
    return out
