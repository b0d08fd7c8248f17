"""Scenarios for real-time pacing (spec Pacing)."""
import random


def suite(seed, n):
    out = []
    for i in range(n):
        r = random.Random("%s-pace-%d" % (seed, i))
        base = r.choice([10, 20, 30])
        start = r.choice([0, 0, 500, -40])
        lines = ["sys %d %d" % (base, start)]
        s = lambda on=None: "%d %s" % (r.choice([1, 1, 1, 0]) if on is None else on, r.choice(["1 1", "1 1", "1 2", "2 1", "3 2", "1 3", "4 1", "0 1", "-1 1"]))
        if r.random() < 0.8:
            lines.append("set " + s())
        k = 0
        for _ in range(r.randint(1, 3)):
            m = r.randint(2, 7)
            if r.random() < 0.5:
                lines.append("at %d %s" % (k + r.randint(1, m), s()))
            if r.random() < 0.3:
                lines.append("pause %d" % r.choice([30, 80]))
            if r.random() < 0.3:
                lines.append("set " + s())
            k += m
            lines.append("run %d" % (start + k * base))
        out.append(("pace%d" % i, {"on": 0, "fn": 1, "fd": 1}, lines))
    # long simulated time with pacing off: must not be delayed
    for i, off in enumerate(("0 1 1", "1 0 1", "1 -1 1")):
        out.append(("off%d" % i, {"on": 0, "fn": 1, "fd": 1}, ["sys 400 0", "set " + off, "run 2000", "run 4000"]))
    # and no longer than needed with pacing on
    for i, f in enumerate(("1 1", "1 2", "3 2")):
        out.append(("long%d" % i, {"on": 0, "fn": 1, "fd": 1}, ["sys 100 %d" % (i * 1000), "set 1 " + f, "run %d" % (i * 1000 + 600), "run %d" % (i * 1000 + 1000)]))
    return out


def metrics(seed, n):
    """With monitoring settings and steps that take time."""
    out = []
    for i in range(n):
        r = random.Random("%s-metrics-%d" % (seed, i))
        base = r.choice([5, 10, 20])
        start = r.choice([0, 0, 500, -40])
        lines = ["sys %d %d" % (base, start)]
        rtf = lambda: "%d %s" % (r.choice([1, 1, 0]), r.choice(["1 1", "1 2", "2 1", "3 2", "4 1", "0 1"]))
        mon = lambda: r.choice(["1 -1", "2 -1", "3 -1", "5 -1", "4 0", "2 15", "2 30", "5 45"])
        cur = [rtf(), mon()]

        def s():
            if r.random() < 0.5:
                cur[0] = rtf()
            if r.random() < 0.6:
                cur[1] = mon()
            return " ".join(cur)
        if r.random() < 0.85:
            lines.append("set " + s())
        k = 0
        for _ in range(r.randint(1, 3)):
            m = r.randint(2, 11)
            for j in range(1, m + 1):
                if r.random() < 0.4:
                    lines.append("busy %d %d" % (k + j, r.choice([1, 3, 8, 20])))
            if r.random() < 0.4:
                lines.append("at %d %s" % (k + r.randint(1, m), s()))
            if r.random() < 0.4:
                lines.append("pause %d" % r.choice([10, 40]))
            if r.random() < 0.3:
                lines.append("set " + s())
            k += m
            lines.append("run %d" % (start + k * base))
        out.append(("metrics%d" % i, {"on": 0, "fn": 1, "fd": 1, "mn": 5, "ms": -1}, lines))
    return out
