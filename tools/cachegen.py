"""Scenarios for the file caches and file locks."""
import itertools, random

KEYS = ["a", "b", "A", "", ".", "..", "../x", "a/b", "/abs", "a%2Fb", "{8c4e810f-3df3-4a00-8276-176fa3c9f000}", "k k", "\xe5\x00z",
        "a.data", "a.lock", "lock", "...", "%", "x" * 60]


def hx(s):
    return s.encode("latin-1").hex() or "."


def temp(seed, n):
    out = []
    for i in range(n):
        r = random.Random("%s-temp-%d" % (seed, i))
        ks = r.sample(KEYS, r.choice([1, 2, 3, 5]))
        if i % 4 == 0:
            ks = (ks + ["", ".", "..", "a"])[-5:]
            ks = list(dict.fromkeys(ks))
        lines = ["key %d %s" % (k, hx(s)) for k, s in enumerate(ks)]
        h = 0
        live = []
        held = {}
        dead = False
        for _ in range(r.randint(8, 40)):
            x = r.random()
            k = r.randrange(len(ks))
            if x < 0.5 and not dead:
                h += 1
                m = r.choice(["rw", "ro", "ro"])
                lines.append("%s %d %d" % (m, k, h))
                live.append(h)
            elif x < 0.7 and live:
                # often not the one acquired last
                g = live.pop(0 if r.random() < 0.4 else r.randrange(len(live)))
                lines.append("release %d" % g)
            elif x < 0.8 and live:
                lines.append("write %d %d %d" % (r.choice(live), r.randint(1, 4), r.randint(1, 99)))
            elif x < 0.92 and live:
                lines.append("read %d" % r.choice(live))
            elif x < 0.95:
                lines.append("left")
            elif x < 0.98 and not dead:
                lines.append("move %d" % r.randint(0, 1))
            elif x > 0.99 and not dead:
                lines += ["destroy", "left"]
                dead = True
        for g in live:
            if r.random() < 0.8:
                lines += ["read %d" % g, "release %d" % g]
        if not dead:
            lines += ["destroy"]
        lines.append("left")
        for g in live:
            lines.append("release %d" % g)
        lines.append("left")
        out.append(("temp%d" % i, {}, lines))
    return out


def locks(seed, n):
    """Steps and free runs of several threads in one to three processes (harness filelock)."""
    out = []
    for i in range(n):
        r = random.Random("%s-lock-%d" % (seed, i))
        np = r.choice([1, 1, 2, 2, 3])
        ths = [p * 3 + k + 1 for p in range(np) for k in range(r.choice([1, 2, 2, 3]))]
        free = i % 3 == 2
        lines = ["procs %d %d" % (np, r.choice([0, 500, 3000]) if free else 0)]
        # the file each slot is for; a thread uses a file through one slot at a time
        for t in ths:
            lines.append("%d new 0 1 %d" % (t, r.randint(0, 2)))
        kills = 0
        for _ in range(r.randint(6, 16 if free else 24)):
            t = r.choice(ths)
            x = r.random()
            pre = "& " if free else ""
            if x < 0.16:
                o = "X 0"
            elif x < 0.34:
                o = "S 0"
            elif x < 0.44:
                o = "tX 0"
            elif x < 0.56:
                o = "tS 0"
            elif x < 0.80:
                o = "u 0"
            elif x < 0.84:
                o = "del 0"
                lines.append("%s%d %s" % (pre, t, o))
                o = r.choice(["new 0 1 %d", "newX 0 1 %d", "newS 0 1 %d"]) % r.randint(0, 2)
            elif x < 0.88:
                o = r.choice(["newX 0 1 %d", "newS 0 1 %d"]) % r.randint(0, 2)
            elif x < 0.93:
                lines.append("%s%d mv 0 1" % (pre, t))
                o = "mv 1 0"
            elif x < 0.96 and np > 1 and kills < np - 1 and not free:
                kills += 1
                lines.append("kill %d" % r.randint(1, np))
                continue
            else:
                o = "y %d" % r.choice([10, 100, 1000])
            lines.append("%s%d %s" % (pre, t, o))
            if free and r.random() < 0.3:
                lines.append("& %d y %d" % (t, r.choice([5, 50, 300])))
        out.append(("lock%d" % i, {}, lines))
    return out


def lock_pairs():
    """Every pair of modes by two threads of one or two processes, in every order of release."""
    out = []
    for np, (a, b) in ((1, (1, 2)), (2, (1, 4))):
        for m1, m2 in itertools.product(["X", "S", "tX", "tS"], repeat=2):
            for rel in ("u", "del", "mv"):
                lines = ["procs %d" % np, "%d new 0 1 0" % a, "%d new 0 1 1" % b, "%d %s 0" % (a, m1), "%d %s 0" % (b, m2)]
                for t in (a, b):
                    lines += ["%d mv 0 1" % t, "%d del 1" % t] if rel == "mv" else ["%d %s 0" % (t, rel)]
                # nothing may be left of it
                lines += ["%d newX 2 1 0" % a, "%d del 2" % a, "%d newX 2 1 0" % b, "%d del 2" % b]
                out.append(("pair_%d_%s_%s_%s" % (np, m1, m2, rel), {}, lines))
    # three shared holders released one after the other, an exclusive request waiting
    for np, ts in ((1, (1, 2, 3)), (2, (1, 2, 4)), (2, (1, 4, 5)), (3, (1, 4, 7))):
        for order in itertools.permutations(ts):
            lines = ["procs %d" % max(np, 2)] + ["%d newS 0 1 0" % t for t in ts]
            w = 6
            lines += ["%d newX 0 1 0" % w]
            for t in order:
                lines += ["%d u 0" % t]
            lines += ["%d u 0" % w, "%d newX 1 1 0" % ts[0]]
            out.append(("three_%d_%s" % (np, "".join(map(str, order))), {}, lines))
    # a shared request waits for another process; others of its process try
    for m in ("tS", "tX"):
        out.append(("waiting_" + m, {}, ["procs 2", "4 newX 0 1 0", "1 new 0 1 0", "2 new 0 1 0", "1 S 0", "2 %s 0" % m, "4 u 0", "2 %s 0" % m]))
    return out


def _cache_head(r, np, nk, jitter):
    ks = r.sample([k for k in KEYS if len(k) < 50], nk)
    return ["procs %d %d" % (np, jitter)] + ["key %d %s" % (k, hx(s)) for k, s in enumerate(ks)]


def caches(seed, n):
    """Threads of one to three processes use persistent caches with one root (harness filecache).
    A thread asks for keys only in ascending order, so that none waits for another in a circle."""
    out = []
    for i in range(n):
        r = random.Random("%s-cache-%d" % (seed, i))
        np = r.choice([1, 2, 2, 3])
        ths = [p * 3 + k + 1 for p in range(np) for k in range(r.choice([1, 2, 3]))]
        nk = r.choice([1, 2, 2, 3])
        free = i % 2 == 1
        pre = "& " if free else ""
        lines = _cache_head(r, np, nk, r.choice([0, 1000, 4000]) if free else 0)
        slots = {t: {} for t in ths}      # thread -> slot -> key it may hold (slots are ordered by key)
        kills = 0
        for _ in range(r.randint(8, 24) if not free else r.randint(12, 40)):
            t = r.choice(ths)
            h = slots[t]
            x = r.random()
            if x < 0.40:
                lo = max(h.values(), default=-1) + 1
                if lo < nk:
                    k = r.randrange(lo, nk)
                    m = r.choice(["rw", "rw", "ro", "ro", "ro"])
                    lines.append("%s%d %s %d %d" % (pre, t, m, k, k))
                    h[k] = k
                    if r.random() < 0.6:
                        lines.append("%s%d %s" % (pre, t, "wr %d %d" % (k, r.randint(1, 99)) if m == "rw" else "rd %d" % k))
            elif x < 0.66:
                if h:
                    k = r.choice(list(h))
                    if r.random() < 0.3:
                        lines.append("%s%d mv %d %d" % (pre, t, k, k + 100))
                        lines.append("%s%d mv %d %d" % (pre, t, k + 100, k))
                    lines.append("%s%d del %d" % (pre, t, k))
                    del h[k]
            elif x < 0.76:
                if h:
                    k = r.choice(list(h))
                    lines.append("%s%d %s" % (pre, t, r.choice(["rd %d" % k, "wr %d %d" % (k, r.randint(1, 99))])))
            elif x < 0.90:
                lines.append("%s%d clean" % (pre, t))
            elif x < 0.92 and np > 1 and kills < np - 1:
                kills += 1
                lines.append("kill %d" % r.randint(1, np))
            elif x < 0.94 and not free:
                lines.append("found")
            else:
                lines.append("%s%d y %d" % (pre, t, r.choice([10, 300, 3000])))
        out.append(("cache%d" % i, {}, lines))
    return out


def cache_churn(seed, n):
    """Many short uses of few keys with clean-ups all the time."""
    out = []
    for i in range(n):
        r = random.Random("%s-churn-%d" % (seed, i))
        np = r.choice([2, 2, 3])
        nk = r.choice([1, 1, 2])
        ths = [p * 3 + k + 1 for p in range(np) for k in range(r.choice([2, 3]))]
        lines = _cache_head(r, np, nk, r.choice([500, 2000, 5000]))
        cleaners = r.sample(ths, max(1, len(ths) // 3))
        progs = {}
        for t in ths:
            q = []
            for _ in range(r.randint(5, 12)):
                if t in cleaners:
                    q.append("clean")
                else:
                    k = r.randrange(nk)
                    m = r.choice(["rw", "ro"])
                    q += ["%s 0 %d" % (m, k), "wr 0 %d" % r.randint(1, 99) if m == "rw" else "rd 0", "rd 0", "del 0"]
                if r.random() < 0.3:
                    q.append("y %d" % r.choice([50, 500, 3000]))
            progs[t] = q
        # commands are queued per thread; interleave them so that all get going at once
        while any(progs.values()):
            for t in ths:
                q = progs[t]
                for _ in range(min(len(q), 6)):
                    lines.append("& %d %s" % (t, q.pop(0)))
        out.append(("churn%d" % i, {}, lines))
    return out


def lock_churn(seed, n):
    """Lock objects for one file that come and go all the time."""
    out = []
    for i in range(n):
        r = random.Random("%s-lockchurn-%d" % (seed, i))
        np = r.choice([1, 2, 2, 3])
        ths = [p * 3 + k + 1 for p in range(np) for k in range(r.choice([1, 2]))]
        lines = ["procs %d %d" % (np, r.choice([500, 2000, 5000]))]
        progs = {}
        for t in ths:
            q = []
            for _ in range(r.randint(3, 6)):
                x = r.random()
                if x < 0.5:
                    q.append("new%s 0 1 %d" % (r.choice("XS"), r.randint(0, 2)))
                else:
                    q += ["new 0 1 %d" % r.randint(0, 2), "%s 0" % r.choice(["X", "S", "tX", "tS"])]
                if r.random() < 0.5:
                    q.append("y %d" % r.choice([50, 1000, 3000]))
                q.append("del 0")
            progs[t] = q
        while any(progs.values()):
            for t in ths:
                q = progs[t]
                for _ in range(min(len(q), 6)):
                    lines.append("& %d %s" % (t, q.pop(0)))
        out.append(("lchurn%d" % i, {}, lines))
    return out


def cache_basic():
    """Life of one key, for every key, and of two at once; two processes, one step at a time."""
    out = []
    for n, k in enumerate(k for k in KEYS if len(k) < 100):
        other = "other"
        lines = ["procs 2 0", "key 0 %s" % hx(k), "key 1 %s" % hx(other), "found",
                 "1 ro 0 0", "found", "4 clean", "found",               # not there yet
                 "1 rw 0 0", "1 wr 0 5", "4 clean", "1 rd 0", "1 del 0", "found",
                 "4 ro 0 0", "4 rd 0", "1 ro 0 0", "1 rd 0", "2 ro 0 0", "5 clean", "2 rd 0", "2 del 0", "1 del 0", "3 clean", "4 rd 0",
                 "6 rw 1 1", "6 wr 1 9", "4 del 0", "found", "2 clean", "found", "6 rd 1", "6 del 1",
                 "5 ro 0 0", "5 ro 1 1", "5 rd 1", "5 del 1", "1 clean", "found", "1 rw 1 1", "1 rd 1", "1 wr 1 3", "4 rw 0 0", "4 wr 0 7", "1 del 1",
                 "kill 2", "2 ro 0 0", "2 rd 0", "2 clean", "2 rd 0", "found", "2 del 0", "2 clean", "found"]
        out.append(("basic%d" % n, {}, lines))
    for m1 in ("rw", "ro"):
        for m2 in ("rw", "ro"):
            for a, b in ((1, 2), (1, 4)):
                # b waits for a (or not); meanwhile a and others go on with another key
                lines = ["procs 2 0", "key 0 61", "key 1 62", "1 rw 0 0", "1 del 0", "%d %s 0 0" % (a, m1), "%d %s 0 0" % (b, m2),
                         "%d rw 1 1" % a, "6 clean", "3 ro 1 1", "6 ro 0 0", "%d del 1" % a, "%d del 0" % a, "3 clean",
                         "%d rw 1 1" % b, "%d del 1" % b, "%d del 0" % b, "6 del 0", "3 del 1", "3 clean", "found"]
                out.append(("two-%s-%s-%d" % (m1, m2, b), {}, lines))
    return out


def lock_closing(seed, n):
    """Lock objects that are destroyed just as others are made for the same file."""
    out = []
    for i in range(n):
        r = random.Random("%s-closing-%d" % (seed, i))
        lines = ["procs 2 %d" % r.choice([1000, 4000])]
        progs = {1: [], 2: [], 4: []}
        for _ in range(8):
            progs[1] += ["new%s 0 1 0" % r.choice("XXS"), "del 0", "y %d" % r.randint(0, 6000)]
            progs[2] += ["y %d" % r.randint(0, 6000), "new%s 0 1 1" % r.choice("XXS"), "y 3000", "del 0"]
            progs[4] += ["new 0 1 0", "tX 0", "del 0"] * 3
        while any(progs.values()):
            for t in progs:
                for _ in range(min(len(progs[t]), 6)):
                    lines.append("& %d %s" % (t, progs[t].pop(0)))
        out.append(("closing%d" % i, {}, lines))
    return out
