"""Scenario generator for the co-simulation core (spec Cosim, harness cosim_core)."""
import random

REAL, INT, BOOL, STR = 1, 2, 3, 4
IN, OUT, PAR, CPAR, LOC = 1, 2, 3, 4, 5
FAR = 1000      # base steps, more than any scenario with such a step has


class Scn:
    def __init__(self, r, base, start, threads, unit, jitter):
        self.r, self.base, self.start, self.threads = r, base, start, threads
        self.cfg = {"base": base, "start": start, "sims": [], "funs": [], "obs": [], "mans": []}
        # anything may be time zero, and resolution is never lost
        epoch = r.choice([0, 0, 0, 1700000000123456789, 4000000000000000001, -4000000000000000003])
        self.decl = ["alg %d %d %d %d %d %d" % (base, threads, start, unit, jitter, epoch)]
        self.lines = []
        self.exposed = set()

    def sim(self, hint, vars, fk=0, fn=0, far=0):
        self.cfg["sims"].append({"hint": hint, "vars": [
            {k: v[k] for k in ("ty", "ca", "st", "rk", "rb", "ro")} for v in vars], "fk": fk, "fn": fn})
        self.decl.append("simdecl %d %d %d%s" % (hint, fk, fn, " %d" % far if far else ""))
        for v in vars:
            self.decl.append("var %d %d %d %d %d %d %d %d" % (
                v["ty"], v["ref"], v["ca"], v["st"], v["has"], v["rk"], v["rb"], v["ro"]))
        return len(self.cfg["sims"])

    def fun(self, kind, off=0, fac=1, n=1, dim=1, ty=REAL):
        self.cfg["funs"].append({"kind": kind, "off": off, "fac": fac, "n": n, "dim": dim, "ty": ty})
        self.decl.append("fundecl %d %d %d %d %d %d" % (kind, off, fac, n, dim, ty))
        return len(self.cfg["funs"])

    def obs(self, vars, stop_at=-1):
        self.cfg["obs"].append({"vars": [list(v) for v in vars]})
        self.decl.append("obsdecl %d %s" % (stop_at, " ".join("%d %d" % tuple(v) for v in vars)))
        return len(self.cfg["obs"])

    def man(self, kind, adds=None):
        """adds = (n, o): in its n-th step it adds observer o."""
        self.cfg["mans"].append(kind)
        self.decl.append("mandecl %d" % kind + (" %d %d" % adds if adds else ""))
        return len(self.cfg["mans"])

    def op(self, *a):
        self.lines.append(" ".join(str(x) for x in a))

    def done(self, sid):
        return (sid, self.cfg, self.decl + self.lines)


def mkvars(r, n, ntypes=4, feed=0.5):
    vs, used = [], set()
    for k in range(n):
        ty = r.choice([REAL, REAL, INT, BOOL, STR][:ntypes + 1] if ntypes == 4 else [REAL, INT][:ntypes])
        ca = r.choice([IN, IN, IN, OUT, OUT, OUT, PAR, CPAR, LOC])
        while True:
            ref = r.choice([r.randrange(0, 6), r.randrange(0, 1000), 4000000000 + r.randrange(0, 9)])
            if (ty, ref) not in used:
                break
        used.add((ty, ref))
        has = r.random() < 0.7
        st = 0
        if has:
            st = r.randrange(0, 2) if ty == BOOL else r.randrange(0 if ty == STR else -9, 10)
        vs.append({"ty": ty, "ref": ref, "ca": ca, "st": st, "has": int(has), "rk": 0, "rb": 0, "ro": 0})
    for k, v in enumerate(vs):
        if v["ca"] in (OUT, CPAR, LOC):
            src = [m for m, w in enumerate(vs) if w["ca"] in (IN, PAR) and w["ty"] == v["ty"]]
            if src and r.random() < feed:
                v["rk"], v["rb"], v["ro"] = 2, r.choice(src) + 1, (r.randrange(0, 3))
            elif r.random() < 0.8:
                v["rk"], v["rb"] = 1, r.randrange(1, 50) * 100
    return vs


DEFAULT = dict(nsim=(1, 4), nvar=(2, 6), nfun=(0, 2), nobs=(0, 2), nman=(0, 2), ops=(3, 10), threads=None,
               conn=3.0, badconn=0.1, fail=0.0, inits=1.0, reconf=0.0, until=0.4, stop=0.2, reqs=0.5,
               late=0.3, step=1.0, mods=0.2, ntypes=4, feed=0.5, jitter=0.0, hints=True, fks=(1, 1, 2, 2, 3, 4, 5, 6), far=0.0, chain=0.0, share=0.0, instep=0.0, retries=False)


def scenario(seed, sid, **kw):
    p = dict(DEFAULT)
    p.update(kw)
    r = random.Random(seed)
    ri = lambda t: r.randint(*t)
    base = r.choice([1000, 1000, 300, 7000, 500])
    start = r.choice([0, 0, base, 3 * base, 12345, -2 * base, 777])
    threads = p["threads"] if p["threads"] is not None else r.choice([0, 0, 1, 2, 3, 7, -1])
    if isinstance(threads, (list, tuple)):
        threads = r.choice(threads)
    jit = r.choice([0, 0, 300]) if p["jitter"] == 0 else int(p["jitter"])
    unit = r.choice([1000, 1000000, 10000, 1])
    s = Scn(r, base, start, threads, unit, jit)
    if p["retries"]:
        s.decl.append("retries")
    ns = ri(p["nsim"])
    sims = []
    nfail = 0
    for i in range(ns):
        hint = 0
        if p["hints"]:
            hint = r.choice([0, base, base, 2 * base, 3 * base, 2 * base + base // 3, base // 2, 4 * base, base + 1, 2 * base - 1])
        fk = fn = 0
        if r.random() < p["fail"]:
            fk = r.choice(p["fks"])
            fn = r.randint(1, 4)
        if p["chain"] and r.random() < p["chain"]:
            ty = REAL
            vs = [{"ty": ty, "ref": r.randrange(0, 5), "ca": IN, "st": r.randrange(0, 9), "has": 1, "rk": 0, "rb": 0, "ro": 0},
                  {"ty": ty, "ref": r.randrange(5, 9), "ca": OUT, "st": 0, "has": 0, "rk": 2, "rb": 1, "ro": r.randrange(0, 3)},
                  {"ty": ty, "ref": r.randrange(10, 19), "ca": PAR, "st": 0, "has": 0, "rk": 0, "rb": 0, "ro": 0},
                  {"ty": ty, "ref": r.randrange(20, 29), "ca": OUT, "st": 0, "has": 0, "rk": 2, "rb": 3, "ro": 0}]
        else:
            vs = mkvars(r, ri(p["nvar"]), p["ntypes"], p["feed"])
        if sims and p["share"] and r.random() < p["share"]:
            vs = r.choice(sims)     # two instances of one model
        sims.append(vs)
        far = 0
        if p["far"] and unit <= 10000 and r.random() < p["far"]:
            # a step that outlasts the simulation, though not the number of base steps in 32 bits
            hint, far = FAR * base, r.choice([2**32 + 1, 2**32 + 2, 2**32 + 6, 2**31 + 1, 2**33 - 1, 2**31 - 1, 5 * 10**9])
        s.sim(hint, vs, fk, fn, far)
    nf = ri(p["nfun"])
    for f in range(nf):
        if r.random() < 0.5:
            s.fun(1, off=r.randrange(-5, 6), fac=r.choice([1, -1, 1, 0, 2]))
        else:
            s.fun(2, n=r.randint(1, 3), dim=r.randint(1, 3), ty=r.choice([REAL, INT] if p["ntypes"] > 1 else [REAL]))
    allv = [(i + 1, v + 1) for i in range(ns) for v in range(len(sims[i]))]
    V = lambda a: sims[a[0] - 1][a[1] - 1]
    nobs, nman = ri(p["nobs"]), ri(p["nman"])
    stops = []
    for o in range(nobs):
        st = -1
        if r.random() < p["stop"]:
            st = r.randint(1, 8)
        s.obs(r.sample(allv, min(len(allv), r.randint(0, 6))), st)
    inner = {}
    for m in range(nman):
        kind = r.choice([1, 2])
        adds = None
        if p["instep"] and kind == 1 and len(inner) < nobs and r.random() < p["instep"]:
            adds = (r.choice([1, 1, 1, 2, 3, 5]), len(inner) + 1)
            inner[adds[1]] = m + 1
        s.man(kind, adds)
    # adding things, in any order
    adds = [("addsim", i + 1) for i in range(ns)]
    rest = [("addfun", f + 1) for f in range(nf)] + [("addobs", o + 1) for o in range(nobs)] + [("addman", m + 1) for m in range(nman)]
    late_obs = []
    order = []
    fo = iter(range(1, nf + 1))
    for k, i in rest:
        if k == "addobs" and i in inner:
            continue
        if k == "addobs" and r.random() < p["late"]:
            late_obs.append(i)
            continue
        order.append((k, i))
    seq = adds[:]
    for a in order:
        seq.insert(r.randint(0, len(seq)), a)
    # simulators and functions must come in index order
    it = {k: iter(sorted(i for kk, i in seq if kk == k)) for k in ("addsim", "addfun")}
    manat = {}
    for k, i in seq:
        if k in it:
            i = next(it[k])
        s.op(k, i)
        if k == "addman":
            manat[i] = len(manat) + 1
        if k == "addobs":
            s.exposed |= set(map(tuple, s.cfg["obs"][i - 1]["vars"]))
    # connections
    used_t, conns, vsfeed = set(), [], {}
    outs = [a for a in allv if V(a)["ca"] in (OUT, CPAR)]
    ins = [a for a in allv if V(a)["ca"] == IN]
    nconn = int(round(p["conn"] * ns * r.uniform(0.3, 1.3)))

    def fun_r(f, d):
        c = s.cfg["funs"][f - 1]
        if c["kind"] == 1:
            return (0 if d == IN else 1, 0, 0, 0)
        return (0, r.randrange(c["n"]), 0, r.randrange(c["dim"])) if d == IN else (1, 0, 0, r.randrange(c["dim"]))
    esf, tsf = set(), {}
    for _ in range(nconn):
        k = r.random()
        if r.random() < p["badconn"]:
            # anything at all
            pick = lambda: r.choice(allv) if r.random() < 0.85 else (r.randint(1, ns), 99)
            a, b = pick(), pick()
            if k < 0.5 or not nf:
                s.op("ss", *a, *b)
                okk = (a in allv and b in allv and V(a)["ca"] in (OUT, CPAR) and V(b)["ca"] == IN and V(a)["ty"] == V(b)["ty"] and b not in used_t)
                if okk:
                    used_t.add(b); s.exposed.add(a); conns.append(("ss", a, b))
            elif k < 0.75:
                f = r.randint(1, nf)
                rr = r.choice([fun_r(f, IN), fun_r(f, OUT), (r.randint(0, 1), r.randint(0, 3), 0, r.randint(0, 3)), (r.randint(0, 2), 0, r.randint(0, 1), 0)])
                # accepted or not is decided by the model; growth is bounded by the token sources only
                if a in allv and V(a)["ca"] in (OUT, CPAR) and V(a)["rk"] == 2:
                    continue
                s.op("sf", *a, f, *rr)
                if a in allv and V(a)["ca"] in (OUT, CPAR):
                    s.exposed.add(a)
            else:
                f = r.randint(1, nf)
                rr = r.choice([fun_r(f, IN), fun_r(f, OUT), (r.randint(0, 1), r.randint(0, 3), 0, r.randint(0, 3)), (r.randint(0, 2), 0, r.randint(0, 1), 0)])
                s.op("fs", f, *rr, *b)
                used_t.add(b) if (b in allv and V(b)["ca"] == IN) else None
            continue
        if k < 0.6 or not nf:
            b = [x for x in ins if x not in used_t]
            if not b:
                continue
            b = r.choice(b)
            a = [x for x in outs if V(x)["ty"] == V(b)["ty"]]
            if not a:
                continue
            a = r.choice(a)
            s.op("ss", *a, *b)
            used_t.add(b); s.exposed.add(a); conns.append(("ss", a, b))
        elif k < 0.8:
            f = r.randint(1, nf)
            c = s.cfg["funs"][f - 1]
            rr = fun_r(f, IN)
            a = [x for x in outs if V(x)["ty"] == c["ty"]]
            # at most one feed-through source per summing function, none with factor 2: values stay bounded
            a = [x for x in a if V(x)["rk"] != 2 or (not tsf.get(f) and not (c["kind"] == 1 and abs(c["fac"]) > 1))]
            if not a or (f, rr) in esf:
                continue
            a = r.choice(a)
            if V(a)["rk"] == 2:
                tsf[f] = True
            esf.add((f, rr))
            s.op("sf", *a, f, *rr)
            s.exposed.add(a); conns.append(("sf", f, rr, c["ty"]))
        else:
            f = r.randint(1, nf)
            c = s.cfg["funs"][f - 1]
            rr = fun_r(f, OUT)
            b = [x for x in ins if V(x)["ty"] == c["ty"] and x not in used_t]
            if not b:
                continue
            b = r.choice(b)
            used_t.add(b)
            s.op("fs", f, *rr, *b); conns.append(("fs", f, rr, b))
    # initial values
    nin = int(p["inits"] * ns * r.uniform(0, 1.5))

    def val(a):
        t = V(a)["ty"]
        return r.randrange(0, 2) if t == BOOL else r.randrange(0 if t == STR else -20, 60)
    for _ in range(nin):
        a = r.choice(allv)
        s.op("init", *a, val(a))
    if p["inits"] and r.random() < 0.2:
        s.op("init", r.randint(1, ns), 99, 1)
    removed = set()

    def reconf():
        k = r.random()
        live = [i for i in range(1, ns + 1) if i not in removed]
        if k < 0.45 and conns:
            c = r.choice(conns)
            if c[0] in ("ss",):
                s.op("disc", *c[2])
            elif c[0] == "fs":
                s.op("disc", *c[3])
            else:
                s.op("discf", c[1], *c[2], c[3])
        elif k < 0.6:
            s.op("disc", *r.choice(allv))
        elif len(live) > 1 and k < 0.8 and not s.started_dec:
            i = r.choice(live)
            removed.add(i)
            s.op("rmsim", i)
    for o in inner:
        # what it observes is exposed already
        vs = [v for v in s.cfg["obs"][o - 1]["vars"] if tuple(v) in s.exposed]
        s.cfg["obs"][o - 1]["vars"] = vs
        idx = [n for n, d in enumerate(s.decl) if d.startswith("obsdecl")][o - 1]
        s.decl[idx] = " ".join(s.decl[idx].split()[:2] + ["%d %d" % tuple(v) for v in vs])
    s.started_dec = False
    if p["reconf"] and r.random() < p["reconf"]:
        for _ in range(r.randint(1, 2)):
            if r.random() < 0.5:
                live = [i for i in range(1, ns + 1) if i not in removed]
                s.op("dec", r.choice(live), r.choice([1, 2, 3, 4, 0, -1] if r.random() < 0.2 else [1, 2, 3, 4]))
            else:
                reconf()

    def request():
        m = r.choice(list(manat.values()))
        cand = [a for a in allv if a[0] not in removed]
        a = r.choice(cand)
        if r.random() < 0.08:
            a = (a[0], 99)
        kind = s.cfg["mans"][[k for k, v in manat.items() if v == m][0] - 1]
        ty = V(a)["ty"] if a in allv else REAL
        if kind == 2:
            mk = r.choice([0, 1, 1])
        else:
            mk = r.choice({REAL: [0, 1, 2, 3], INT: [0, 1, 2, 3], BOOL: [0, 1, 4], STR: [0, 1, 2]}[ty])
        x = 0 if mk in (0, 4) else (r.randrange(0, 2) if ty == BOOL else r.randrange(0 if ty == STR else -9, 80))
        if mk == 3:
            x = r.randrange(-3, 4)
        s.op("req", m, *a, mk, x)
    now, k, inited = start, 0, False
    for _ in range(ri(p["ops"])):
        while manat and r.random() < p["reqs"]:
            request()
        if r.random() < p["mods"]:
            s.op("mods")
        if late_obs and r.random() < 0.4 and (inited or r.random() < 0.3):
            o = late_obs.pop()
            if inited:
                vs = [v for v in s.cfg["obs"][o - 1]["vars"] if tuple(v) in s.exposed and v[0] not in removed]
                s.cfg["obs"][o - 1]["vars"] = vs
                for n, d in enumerate(s.decl):
                    pass
                idx = [n for n, d in enumerate(s.decl) if d.startswith("obsdecl")][o - 1]
                s.decl[idx] = " ".join(s.decl[idx].split()[:2] + ["%d %d" % tuple(v) for v in vs])
            else:
                s.exposed |= set(map(tuple, s.cfg["obs"][o - 1]["vars"]))
            s.op("addobs", o)
        if inited and p["reconf"] and r.random() < p["reconf"] * 0.4:
            reconf()
        if inited and p["inits"] and r.random() < 0.1:
            a = r.choice(allv)
            s.op("init", *a, val(a))
        if r.random() < p["until"]:
            n = r.randint(0, 5)
            t = start + (k + n) * base + r.choice([0, 0, 0, base // 3, -(base // 3), base // 100 + 1, base // 100 - 1 if base >= 200 else 0, -1, 1, -base // 2])
            if 100 * ((t - start) % base) == base:
                t += 1
            s.op("until", 1, t)
            k += max(1, n)      # only an estimate: the target may be one grid point off
        else:
            s.op("step")
            k += 1
        inited = True
    if manat or r.random() < 0.3:
        s.op("mods")
    return s.done(sid)


def suite(seed, n, tag, **kw):
    return [scenario("%s-%s-%d" % (seed, tag, i), "%s%d" % (tag, i), **kw) for i in range(n)]


BUILD_OPS = ("addsim", "addfun", "ss", "sf", "fs", "init")


def structured(seed, n, tag, **kw):
    """Scenarios whose system is described by a system structure and injected."""
    out = []
    for i in range(n):
        sid, cfg, lines = scenario("%s-%s-%d" % (seed, tag, i), "%s%d" % (tag, i), share=0.4, **kw)
        k = [j for j, l in enumerate(lines) if l.split()[0] in ("addsim", "addfun", "addobs", "addman")][0]
        decl, ops = lines[:k], lines[k:]
        first = [j for j, l in enumerate(ops) if l.split()[0] not in BUILD_OPS + ("addobs", "addman")]
        m = first[0] if first else len(ops)
        head = ops[:m]
        order = lambda w: [l for l in head if l.split()[0] in w]
        ents = order(("addsim", "addfun"))
        rest = order(("ss", "sf", "fs", "init"))
        # entities before what refers to them; the rest in any order
        random.Random("%s%s%d" % (seed, tag, i)).shuffle(ents)
        # all functions take part
        miss = [f for f in range(1, len(cfg["funs"]) + 1) if "addfun %d" % f not in ents]
        ents += ["addfun %d" % f for f in miss]
        out.append((sid, cfg, decl + ["structured"] + ents + rest + ["inject"] + order(("addobs", "addman")) + ops[m:]))
    return out


def long_run(seed, sid, steps=66000):
    """A long history of two slaves with different steps."""
    r = random.Random("%s-long-%s" % (seed, sid))
    base = r.choice([10, 30, 1])
    s = Scn(r, base, r.choice([0, 12345]), r.choice([0, 1]), r.choice([1, 1000, 1000000]), 0)
    a, b = r.choice([(3, 7), (5, 3), (7, 9), (11, 6)])
    io = lambda: [{"ty": REAL, "ref": 1, "ca": IN, "st": 0, "has": 0, "rk": 0, "rb": 0, "ro": 0},
                  {"ty": REAL, "ref": 2, "ca": OUT, "st": 0, "has": 0, "rk": 1, "rb": 100, "ro": 0}]
    s.sim(a * base, io())
    s.sim(b * base, io())
    for i in (1, 2):
        s.op("addsim", i)
    s.op("ss", 1, 2, 2, 1)
    s.op("ss", 2, 2, 1, 1)
    s.op("until", 1, s.start + steps * base)
    return s.done("long%s" % sid)


def fan(seed, sid):
    """Functions whose targets have different rates and leave one by one: each is to be calculated when one of those left needs it."""
    r = random.Random(seed)
    base = r.choice([1000, 300])
    s = Scn(r, base, r.choice([0, 777]), r.choice([0, 2]), r.choice([1000, 1]), 0)
    slot = lambda ca, ref, ro=0: {"ty": REAL, "ref": ref, "ca": ca, "st": 0, "has": 0, "rk": 1 if ca == OUT else 0, "rb": ro, "ro": 0}
    ns, nf = r.randint(3, 7), r.randint(1, 3)
    hints = [r.choice([1, 1, 2])] + [r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7]) for _ in range(ns - 1)]
    nin = 3
    for h in hints:
        s.sim(h * base, [slot(OUT, 1, r.randrange(1, 50) * 100), slot(OUT, 2, r.randrange(1, 50) * 100)] + [slot(IN, 10 + k) for k in range(nin)])
    for f in range(nf):
        if r.random() < 0.5:
            s.fun(1, off=r.randrange(-5, 6), fac=r.choice([1, -1, 2]))
        else:
            s.fun(2, n=2, dim=2, ty=REAL)
    order = [("addsim", i + 1) for i in range(ns)]
    for f in range(nf):
        order.insert(r.randint(f, len(order)), ("addfun", f + 1))
    it = iter(range(1, nf + 1))
    for k, i in order:
        s.op(k, next(it) if k == "addfun" else i)
    left = []
    for f in range(1, nf + 1):
        lin = s.cfg["funs"][f - 1]["kind"] == 1
        for n in range(1 if lin else r.randint(1, 4)):
            s.op("sf", 1, r.choice([1, 2]), f, 0, 0 if lin else n % 2, 0, 0 if lin else n // 2)
        for i in r.sample(range(2, ns + 1), r.randint(2, ns - 1)):
            s.op("fs", f, 1, 0, 0, 0 if lin else r.randrange(2), i, 2 + f)
            left.append((i, 2 + f))
    gone = set()
    for _ in range(r.randint(2, 5)):
        for _ in range(r.randint(1, 12)):
            s.op("step")
        left = [x for x in left if x[0] not in gone]
        if left:
            x = left.pop(r.randrange(len(left)))
            if r.random() < 0.3 and ns - len(gone) > 2:
                s.op("rmsim", x[0])
                gone.add(x[0])
            else:
                s.op("disc", *x)
    for _ in range(12):
        s.op("step")
    return s.done(sid)
