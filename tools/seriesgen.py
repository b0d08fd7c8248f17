"""Scenarios for the last-value and time-series observers (spec Series)."""
import random


def suite(seed, n, kind, long=False):
    return [one(random.Random("%s-series-%s-%s%d" % (seed, kind, "long" if long else "", i)), "%s%s%d" % (kind, "long" if long else "", i), kind, long) for i in range(n)]


def one(r, sid, kind, long=False):
    buf = r.choice([1, 1, 2, 2, 3, 4, 5, 8, -1])
    ns = r.randint(1, 3)
    if long:
        buf, ns = r.choice([30, 65, 100]), r.randint(1, 6)
    sims = []
    lines = ["buf %d %d %d" % (buf, r.choice([1, 1000000, 333]), r.choice([0, 0, 1700000000123456789, 4000000000000000001, -4000000000000000003]))]
    for i in range(ns):
        used, vs = set(), []
        for _ in range(r.randint(1, 30 if long else 6)):
            ty = r.choice([1, 1, 1, 2, 2, 3, 4])
            ref = r.choice([0, 1, 2, 3, 5, 7, 100] + list(range(8, 40)) * long)
            if (ty, ref) not in used:
                used.add((ty, ref))
                vs.append({"ty": ty, "ref": ref})
        if kind == "sync" and not any(v["ty"] == 1 for v in vs):
            vs.append({"ty": 1, "ref": 4})
        sims.append(vs)
        lines.append("sim " + " ".join("%d %d" % (v["ty"], v["ref"]) for v in vs))
    cfg = {"buf": buf if buf > 0 else 10000, "sims": sims}
    t0 = r.choice([0, 0, 5, 100])
    present, late = [], {}
    for i in range(1, ns + 1):
        if r.random() < 0.85 or i == 1:
            present.append(i)
            lines.append("add %d %d" % (i, t0))
    started = {}

    def var(i, tys):
        c = [k + 1 for k, v in enumerate(sims[i - 1]) if v["ty"] in tys]
        return r.choice(c) if c else None

    def op(ph):
        x = r.random()
        if not present:
            return
        i = r.choice(present)
        if x < 0.3:
            v = r.randint(1, len(sims[i - 1]))
            val = r.randint(0, 1) if sims[i - 1][v - 1]["ty"] == 3 else r.randint(0 if sims[i - 1][v - 1]["ty"] == 4 else -999, 999)
            lines.append("set %d %d %d" % (i, v, val))
        elif x < 0.5:
            v = r.randint(1, len(sims[i - 1])) if r.random() < 0.1 else (var(i, (1,)) if kind == "sync" else var(i, (1, 2)))
            if v:
                lines.append("start %d %d" % (i, v))
                started.setdefault(i, set()).add(v)
        elif x < 0.53:
            c = sorted(started.get(i, ()))
            if c:
                lines.append("stop %d %d" % (i, r.choice(c)))
        elif ph == "run":
            query(i)

    step, t, dt = 0, t0, r.choice([1, 1, 2, 7])

    def query(i):
        k = r.choice({"last": ["ql"] * 6 + ["qs"], "series": ["qs", "qs", "qs", "qr", "qd"], "sync": ["qy"] * 5 + ["qs"]}[kind])
        if k == "ql":
            tys = sorted({v["ty"] for v in sims[i - 1]})
            ty = r.choice(tys)
            c = [m + 1 for m, v in enumerate(sims[i - 1]) if v["ty"] == ty]
            q = [r.choice(c) for _ in range(r.randint(1, 6))]
            if r.random() < 0.06:
                q.append(0)
            lines.append("ql %d %d %s" % (i, ty, " ".join(map(str, q))))
        elif k == "qs":
            v = var(i, (1, 2)) if r.random() < 0.2 or not started.get(i) else r.choice(sorted(started[i]))
            if v and sims[i - 1][v - 1]["ty"] in (1, 2):
                lines.append("qs %d %d %d %d" % (i, v, max(0, r.randint(step - (120 if long else 10), step + 2)), r.choice([0, 1, 2, 3, 4, 5, 9, 20] + [80, 150] * long)))
        elif k == "qy":
            j = r.choice(present)
            p = [m for m in started.get(i, ()) if sims[i - 1][m - 1]["ty"] == 1] or [var(i, (1,))]
            q = [m for m in started.get(j, ()) if sims[j - 1][m - 1]["ty"] == 1] or [var(j, (1,))]
            a, b = r.choice(sorted(p, key=str)), r.choice(sorted(q, key=str))
            if a and b:
                lines.append("qy %d %d %d %d %d %d" % (i, a, j, b, max(0, r.randint(step - (120 if long else 10), step + 2)), r.choice([0, 1, 2, 3, 5, 9, 20] + [80, 150] * long)))
        elif k == "qr":
            a = t - dt * r.randint(-1, 120 if long else 10) + r.choice([0, 0, -1, 1])
            lines.append("qr %d %d %d" % (i, max(0, a), max(0, a) + r.choice([0, 1, dt, 2 * dt, 3 * dt + 1, 5 * dt, 30 * dt, 70 * dt])))
        else:
            lines.append("qd %d %d" % (i, r.choice([0, 1, dt, 2 * dt, 2 * dt + 1, 4 * dt, 30 * dt, 90 * dt])))

    if r.random() < 0.1:
        lines.append("small %d" % r.choice([0, 1, 2]))
    for _ in range(r.randint(0, 5)):
        op("pre")
    lines.append("init 0 %d" % t0)
    dec = [r.choice([1, 1, 2, 3]) for _ in sims]
    for _ in range(r.randint(120, 260) if long else r.randint(3, 16)):
        for _ in range(r.randint(0, 4)):
            op("run")
        step += 1
        t += dt
        for i in present:
            if step % dec[i - 1] == 0:
                for v in range(1, len(sims[i - 1]) + 1):
                    if r.random() < 0.6:
                        lines.append("set %d %d %d" % (i, v, r.randint(0, 1) if sims[i - 1][v - 1]["ty"] == 3 else r.randint(0 if sims[i - 1][v - 1]["ty"] == 4 else -999, 999)))
                lines.append("step %d %d %d %d" % (i, step, t, dt * dec[i - 1]))
        if r.random() < (0.005 if long else 0.06):
            c = [i for i in range(1, ns + 1) if i not in present]
            if c:
                i = r.choice(c)
                present.append(i)
                lines.append("add %d %d" % (i, t))
            elif len(present) > 1:
                i = r.choice(present)
                present.remove(i)
                started.pop(i, None)
                lines.append("rm %d" % i)
    for i in present:
        for _ in range(4):
            query(i)
    return sid, cfg, lines
