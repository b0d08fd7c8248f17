"""Scenarios for the thread pool (spec Pool)."""
import random


def suite(seed, n, workers):
    out = []
    for i in range(n):
        r = random.Random("%s-pool-%d-%d" % (seed, workers, i))
        lines = ["pool %d" % workers]
        k = 0
        nth = r.choice([1, 1, 2, 3])
        per = r.randint(1, 8 if nth == 1 else 4)
        for th in range(nth):
            for _ in range(per):
                x = r.random()
                if x < 0.7:
                    ch = []
                    for _ in range(r.choice([1, 1, 1, 2, 3]) if k < 12 else 1):
                        k += 1
                        ch += [str(k), str(r.choice([0, 0, 100, 300, 1000]))]
                    if nth > 1:
                        ch = ch[:4]
                    lines.append("%d s %s" % (th, " ".join(ch)))
                elif x < 0.9:
                    lines.append("%d w" % th)
                else:
                    lines.append("%d y %d" % (th, r.choice([50, 500, 2000])))
            if r.random() < 0.6:
                lines.append("%d w" % th)
        out.append(("pool%d_%d" % (workers, i), {}, lines))
    for k in (1, 2, 3, 7, 40):
        out.append(("stress%d_%d" % (workers, k), {}, ["pool %d" % workers, "0 stress %d %d" % (20000 // (k + 2), k), "0 s %d 0" % 1, "0 w"]))
    return out
