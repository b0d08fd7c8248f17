"""Scenarios for stop requests during simulate_until (spec StopSim)."""
import random


def suite(seed, n, ns):
    out = []
    for i in range(n):
        r = random.Random("%s-stop-%d-%d" % (seed, ns, i))
        delay = r.choice([0, 50, 300, 1000])
        lines = ["sys %d %d %d %d" % (ns, r.choice([0, 1, 2, 4]), delay, r.randint(0, 1))]
        t = 0
        for k in range(r.randint(2, 5)):
            nst = r.choice([0, 1, 1, 1, 2, 3])
            has = 1
            for _ in range(nst):
                where = r.choice(["slave", "t-slave", "osim", "t-osim", "obs", "t-obs", "man", "t-man", "delay", "delay"])
                lines.append("stop %s %d" % (where, r.randint(0, 4000) if where == "delay" else r.randint(1, 4)))
                if where in ("slave", "obs", "osim", "man") and r.random() < 0.4:
                    has = 0
            T = t + r.randint(0, 7)
            lines.append("run %d %d %d" % (r.randint(0, 1), has, T))
            t = T
        out.append(("stop%d_%d" % (ns, i), {}, lines))
    return out
