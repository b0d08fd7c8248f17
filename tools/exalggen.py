"""Scenarios for executions with a scripted algorithm (spec ExecAlg)."""
import random


class World:
    def __init__(self, r):
        self.r, self.sims, self.funs, self.obs, self.now, self.init, self.conns = r, 0, 0, 0, 0, False, []
        self.made = False

    def dt(self, T=None):
        r = self.r
        while True:
            d = r.choice([0, 1, 1, 2, 3, 7, 10, 40, 99, 101, 250, 1000, 3333, r.randint(1, 500)])
            if T is not None and T > self.now + 3 and r.random() < 0.3:
                d = max(1, T - self.now - r.choice([1, 2, 5, 20]))
            if T is None or 100 * (T - (self.now + d)) != d:
                return d

    def plan(self, T=None, stop=0, fail=0):
        d = self.dt(T)
        fin = [i for i in range(self.sims) if self.r.random() < 0.6]
        self.r.shuffle(fin)
        if not fail:
            self.now += d
        return d, "ps %d %d %d %s" % (d, stop, fail, " ".join(map(str, fin)))

    def inits(self):
        """Lines before a step, and whether the initialization works"""
        if self.init:
            return [], True
        if self.r.random() < 0.25:
            return ["pi %d" % self.r.choice([7, 8])], False
        self.init = True
        return ["pi 0"], True

    def end(self, out):
        r = self.r
        if r.random() < 0.5 or not self.funs:
            i = r.randrange(self.sims) if self.sims and r.random() < 0.93 else r.choice([-1, self.sims, 17])
            ref = r.choice([0, 1] if out else [2, 3])
            if r.random() < 0.08:
                ref = r.choice([0, 1, 2, 3, 9])
            return "s %d %d %d" % (i, r.choice([0, 0, 0, 1]), ref)
        i = r.randrange(self.funs) if r.random() < 0.95 else self.funs
        e = [i, 0, 0, r.choice([0, 1]), 1 if out else 0, 0 if out else r.choice([0, 1])]
        if r.random() < 0.08:
            k = r.choice([1, 3, 4, 5])
            e[k] = r.choice([1, 2, -1]) if k in (3, 5) else 1 - e[k]
        return "f " + " ".join(map(str, e))

    def conn(self):
        r = self.r
        if self.conns and r.random() < 0.25:
            i = r.choice(self.conns)
        else:
            i = self.end(False)
        o = self.end(True)
        if o[0] == "f" and i[0] == "f":
            o = "s %d 0 %d" % (r.randrange(max(self.sims, 1)), r.choice([0, 1]))
        out = []
        # what is left of the script would be for a later connection, which does no harm
        if r.random() < 0.2:
            out.append("pc %d" % r.choice([3, 4]))
        self.conns.append(i)
        return out + ["conn %s %s" % (o, i)]

    def op(self):
        r = self.r
        if not self.made:
            self.made = True
            self.now = r.choice([0, 0, 5, 100, -30, 12345])
            return ["new %d" % self.now]
        k = r.random()
        if k < 0.12 and self.sims < 5:
            self.sims += 1
            return ["sim %d" % r.choice([0, 1, 5, 1000])]
        if k < 0.17 and self.funs < 3:
            self.funs += 1
            return ["fun"]
        if k < 0.24 and self.obs < 4:
            self.obs += 1
            return ["obs"]
        if k < 0.28:
            return ["man"]
        if k < 0.45 and self.sims:
            return self.conn()
        if k < 0.50 and self.sims:
            return ["iv %d %d %d" % (r.randrange(self.sims), r.choice([0, 1]), r.randrange(4))]
        if k < 0.53:
            return ["md %d" % r.choice([0, 1, 2, 3, 8])]
        if k < 0.56:
            return ["mv %d" % r.choice([0, 1])]
        if k < 0.75:
            out, ok = self.inits()
            if ok:
                out.append(self.plan(fail=r.choice([0, 0, 0, 0, 5, 6]))[1])
            return out + ["step"]
        out, ok = self.inits()
        a = r.choice([0, 0, 1])
        has = r.random() < 0.85
        T = self.now + r.choice([-5, 0, 1, 9, 50, 100, 400, 1000, 5000, r.randint(0, 2000)])
        steps = 0
        while ok:
            steps += 1
            last = steps > 30 or r.random() < (0.1 if has else 0.3)
            fail = r.choice([5, 6]) if r.random() < 0.05 else 0
            d, line = self.plan(T if has else None, 1 if last else 0, fail)
            out.append(line)
            if fail or last or (has and 100 * (T - self.now) < d):
                break
        return out + ["until %d %d %d" % (a, 1 if has else 0, T)]


def suite(seed, n, nops=(8, 40), worlds=2):
    out = []
    for i in range(n):
        r = random.Random("%s-exalg-%d-%d" % (seed, worlds, i))
        lines = ["unit %d" % r.choice([1, 1000003, 1000000000])]
        ws = [World(r) for _ in range(worlds)]
        cur = 0
        for _ in range(r.randint(*nops)):
            if worlds > 1 and r.random() < 0.3:
                cur = 1 - cur
                lines.append("w %d" % (cur + 1))
            lines += ws[cur].op()
        if not ws[cur].made:
            lines += ws[cur].op()
        out.append(("exalg%d_%d" % (worlds, i), {}, lines))
    return out
