"""Scenarios for functions of a user's own (spec FunFace)."""
import random


def scenario(r):
    lines = ["new %d" % r.choice([-1, 1, 2, 4])]
    ns, nf = r.randint(1, 4), r.randint(1, 3)
    same = r.random() < 0.3
    dec = [1 if same else r.choice([1, 1, 2, 2, 3, 4, 6]) for _ in range(ns)]
    build = []
    for d in dec:
        build.append("sim %d" % d)
    build += ["fun"] * nf
    r.shuffle(build)
    lines += build
    conns = []
    for f in range(1, nf + 1):
        for ty in range(4):
            for k in range(2):
                if r.random() < 0.55:
                    conns.append("to %d %d %d %d %d" % (r.randint(1, ns), ty, r.randint(0, 1), f, k))
    density = r.choice([0.1, 0.3, 0.6])
    for s in range(1, ns + 1):
        for ty in range(4):
            for i in range(2):
                if r.random() < density:
                    conns.append("from %d %d %d %d" % (r.randint(1, nf), ty, s, i))
    if not same:
        for s in range(1, ns + 1):
            if r.random() < 0.2:
                conns.append("dec %d %d" % (s, r.randint(1, 4)))
    r.shuffle(conns)
    late = []
    if same and r.random() < 0.7:
        k = r.randint(0, len(conns))
        conns, late = conns[:k], conns[k:]
    lines += conns
    for _ in range(r.randint(3, 26)):
        while late and r.random() < 0.4:
            lines.append(late.pop())
        if r.random() < 0.02:
            lines.append("fail %d %d %d" % (r.randint(1, nf), r.randint(0, 1), r.choice([7, 8])))
        lines.append("step")
    return lines


def suite(seed, n):
    return [("fun%d" % i, {}, scenario(random.Random("%s-fun-%d" % (seed, i)))) for i in range(n)]
