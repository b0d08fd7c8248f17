"""Scenarios for FMI slaves (spec/FmiSlave.tla)."""
import random

REALS, INTS, STRS = 12, 8, 8
TYPES = ["real", "integer", "boolean", "string"]
NVAL = {"real": REALS, "integer": INTS, "boolean": 2, "string": STRS}
GOOD = {1: (0, 1), 2: (0, 1), 3: (0,)}


class Gen:
    def __init__(self, r, sid, v):
        self.r, self.sid, self.v = r, sid, v
        self.msg = 0
        self.lines = []
        self.xs = 0

    def describe(self, kind=1, parse=1, single=0):
        r, v = self.r, self.v
        self.single = single
        word = lambda: r.choice(["-", "abc", "x.y", "1.0", "Model", "{g}"])
        text = [word(), "g%s" % self.sid, word(), word(), word()]
        vs = []
        for k in range(r.randint(0, 7)):
            ty = r.randint(0, 3 if v == 3 else 4)
            ca = r.randint(0, 3) if v == 1 else r.randint(1, 6)
            va = r.randint(0, 3) if v == 1 else r.randint(0, 4)
            st = -1 if r.random() < .4 else r.randrange(NVAL[TYPES[ty]]) if ty < 4 else 0
            vs.append(dict(n="v%d" % r.randint(0, 99), vr=r.choice([0, 1, 7, 100, 65536, 2147483647]), ty=ty, ca=ca, va=va, st=st))
        self.cfg = dict(v=v, kind=kind, parse=parse, single=single, vars=vs,
                        **dict(zip(("name", "guid", "desc", "author", "ver"), ("" if t == "-" else t for t in text))))
        self.lines += ["fmu %d %d %d %d" % (v, kind, parse, single), "text " + " ".join(text)]
        self.lines += ["var %(n)s %(vr)d %(ty)d %(ca)d %(va)d %(st)d" % q for q in vs]

    def status(self, f, bad=0.08):
        """a status with perhaps a message; returns (token, continues)"""
        r, v = self.r, self.v
        if f in ("xml", "create", "instantiate"):
            s = 3 if r.random() < bad else 0
        elif v == 3:
            s = 3 if r.random() < bad else 0
        elif r.random() < bad:
            s = r.choice([2, 3, 4, 5] if f == "do_step" or v == 2 else [2, 3, 4])
        else:
            s = r.choice([0, 0, 0, 1])
        lg = 0
        if v != 3 and f not in ("xml", "create") and r.random() < (.8 if s > 1 else .15):
            self.msg += 1
            lg = self.msg
        return s + 10 * lg, s in GOOD[v], s

    def chain(self, fs, bad):
        toks = []
        for f in fs:
            t, good, s = self.status(f, bad)
            toks.append(str(t))
            if not good:
                return " ".join(toks), f, s
        return " ".join(toks), None, 0

    def run(self, ops, bad=0.06, nslaves=3, big=False):
        r, v = self.r, self.v
        held, S, nextname = False, {}, 0
        t0 = {}
        self.lines.append("load")
        if self.cfg["parse"] == 0 or (self.cfg["kind"] == 0 and v != 3):
            self.lines += ["load"] * r.randint(0, 1)
            return self.scenario()
        held = True
        for _ in range(ops):
            choice = r.random()
            if held and len(S) < nslaves and (choice < .12 or not S):
                h = min(set(range(1, nslaves + 1)) - set(S))
                nextname += 1
                empty = v != 3 and r.random() < .05
                refused = empty or (v != 3 and self.single and S)
                st, f, s = ("", None, 0) if refused or v == 3 else self.chain(["xml", "create", "instantiate"], bad)
                self.lines.append("inst %d %s %s" % (h, "-" if empty else "n%d" % nextname, st))
                if not refused and f is None:
                    S[h] = "made"
            elif S:
                h = r.choice(sorted(S))
                ph = S[h]
                if ph in ("broken", "stopped", "over") or choice > .95:
                    st = ""
                    if ph in ("run", "stopped"):
                        st = self.chain(["terminate"], bad)[0]
                    self.lines.append("drop %d %s" % (h, st))
                    del S[h]
                elif ph == "made":
                    a = r.choice([0, 0, 1, 500000000, -1000000000, 123456789012345, 3000000000]) if r.random() < .7 else r.randrange(10**13)
                    t0[h] = a
                    stop = "-" if r.random() < .4 else str(a + r.choice([1, 1000000, 10**9, 86400 * 10**9]))
                    if stop == "0":
                        stop = "5"
                    tol = r.choice([-1, -1, 3, 1, 4])
                    st, f, s = ("", None, 0) if v == 1 else self.chain(["setup_experiment", "enter"], bad)
                    self.lines.append("setup %d %d %s %d %s" % (h, a, stop, tol, st))
                    S[h] = "set" if f is None else "broken"
                elif ph == "set" and r.random() < .4:
                    st, f, s = self.chain(["start"], bad)
                    self.lines.append("start %d %s" % (h, st))
                    S[h] = "run" if f is None else "broken"
                elif ph == "run" and r.random() < .5:
                    if r.random() < .1:
                        st, f, s = self.chain(["terminate"], bad)
                        self.lines.append("end %d %s" % (h, st))
                        S[h] = "over" if f is None else "broken"
                    else:
                        dt = r.choice([1, 1000000, 50000000, 100000000, 333333333, 10**9, 7 * 10**9]) if r.random() < .7 else r.randint(1, 10**10)
                        st, f, s = self.chain(["do_step"], bad)
                        self.lines.append("step %d %d %d %s" % (h, t0[h], dt, st))
                        t0[h] += dt
                        if f is not None:
                            S[h] = "stopped" if s == 2 and v != 3 else "broken"
                else:
                    ty = r.choice(TYPES)
                    if r.random() < .06:
                        k = r.randint(0, 3)
                        self.lines.append("%s %d %s %d %d" % (r.choice(["getx", "setx"]), h, ty, k, k + r.choice([1, 2])))
                        continue
                    op, k = r.choice(["get", "set"]), r.choice([0, 1, 1, 2, 3, 5, 40 if big else 4])
                    vr = [r.choice([0, 1, 2, 7, 100, 2147483647]) for _ in range(k)]
                    lo = -1 if (op == "get" and ty == "string" and v != 3) else 0
                    vals = [r.randint(lo, NVAL[ty] - 1) for _ in range(k)]
                    st, f, s = self.chain([op], bad) if k else ("", None, 0)
                    self.lines.append("%s %d %s %d %s %s %s" % (op, h, ty, k, " ".join(map(str, vr)), " ".join(map(str, vals)), st))
                    if f is not None and not (op == "set" and s == 2 and v != 3):
                        S[h] = "broken"
            if held and r.random() < .02:
                self.lines.append("dropfmu")
                held = False
            if not held and not S:
                if r.random() < .5:
                    self.lines.append("load")
                    held = True
                else:
                    break
        left = sorted(S) + (["f"] if held else [])
        r.shuffle(left)
        for h in left:
            if h == "f":
                self.lines.append("dropfmu")
            else:
                self.lines.append("drop %d %s" % (h, self.chain(["terminate"], bad)[0] if S[h] in ("run", "stopped") else ""))
        return self.scenario()

    def scenario(self):
        return (self.sid, self.cfg, [" ".join(l.split()) for l in self.lines])


def rnd(seed, n):
    r = random.Random("fmi%d" % seed)
    out = []
    for k in range(n):
        v = 1 + k % 3
        g = Gen(r, "f%d" % k, v)
        kind = r.choice([1, 1, 2, 2, 1, 1, 0]) if v != 3 else 1
        g.describe(kind, 0 if r.random() < .04 else 1, 1 if r.random() < .25 else 0)
        out.append(g.run(r.randint(3, 60), bad=r.choice([0, .03, .1, .25]), big=r.random() < .1))
    return out


VERSIONS = ["1.0", "2.0", "2.0", "2.0.3", "1.0.1"]


def importer(seed, n):
    """Scenarios of the importer (spec/Importer.tla)."""
    r = random.Random("imp%d" % seed)
    out = []
    for k in range(n):
        persistent = r.random() < .6
        L = ["cache " + ("persistent" if persistent else "temporary")]
        c, o = 0, 0
        held = {}
        paths, dirs, guid = ["p1", "p2", "p3"], ["d1", "d2"], {}
        files = {}

        def write(p):
            nonlocal c
            c += 1
            q = r.random()
            # an FMU is known by its GUID: two places have the same one only if they hold the same
            twin = [x for x in files if x != p and files[x]["ok"]]
            if twin and q < .2:
                f = dict(files[r.choice(twin)])
                f["bad"] = -1
            else:
                # replacing is safe for whom holds the old one; a GUID is reused only by the same path
                g = guid.get(p) if p in guid and r.random() < .6 else "{g%d-%d}" % (k, c)
                for x in list(files):
                    if x != p and files[x]["g"] == g:
                        g = "{g%d-%d}" % (k, c)
                f = dict(v=r.choice(VERSIONS), g=g, c=c, ok=True, bad=r.randint(0, 2) if r.random() < .15 and p in paths else -1)
                if r.random() < .12:
                    f["ok"] = False
                    f.update(r.choice([dict(v="-"), dict(v="3.0"), dict(v="none"), dict(g="-"), dict(v="10.0", g="-")]))
            files[p] = f
            if f["g"] != "-":
                guid[p] = f["g"]
            if p in paths:
                L.append("file %s %s %s %d %d %d" % (p, f["v"], f["g"], f["c"], r.randint(0, 3), f["bad"]))
            else:
                L.append("dir %s %s %s %d" % (p, f["v"], f["g"], f["c"]))

        for p in paths[:r.randint(1, 3)] + (dirs[:r.randint(0, 2)] if r.random() < .4 else []):
            write(p)
        for _ in range(r.randint(3, 25)):
            x = r.random()
            p = r.choice(sorted(files))
            if x < .45:
                o += 1
                L.append("%s %s %d" % ("import" if p in paths else "importdir", p, o))
                held[o] = files[p]
            elif x < .6 and held:
                q = r.choice(sorted(held))
                del held[q]
                L.append("release %d" % q)
            elif x < .7 and held:
                L.append("look %d" % r.choice(sorted(held)))
            elif x < .8:
                if p in dirs and held:
                    continue    # whoever uses an unpacked FMU sees it change
                write(p)
            elif x < .93 and persistent and p in paths:
                # another process waits for this one if this one uses the same FMU
                for q in sorted(held):
                    L.append("release %d" % q)
                held.clear()
                L.append("crash %s %d" % (p, r.randint(0, 12)))
            elif x < .96:
                held.clear()
                L.append("reopen")
        out.append(("i%d" % k, {}, L))
    return out


def crashes():
    """Every point at which an import can be cut off, with the XML at every place."""
    out = []
    for order in range(4):
        for replaced in (0, 1):
            for k in range(0, 12):
                L = ["cache persistent", "file p1 2.0 {g} 1 %d -1" % order]
                if replaced:
                    L += ["import p1 1", "release 1", "file p1 2.0 {g} 2 %d -1" % order]
                L += ["crash p1 %d" % k, "import p1 2", "look 2"]
                out.append(("c%d.%d.%d" % (order, replaced, k), {}, L))
    return out
