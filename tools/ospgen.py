"""Random OSP-IS system structures (spec OspConfig, harness osp)."""
import copy, random
from xml.sax.saxutils import quoteattr, escape

NSS = "http://opensimulationplatform.com/MSMI/OSPSystemStructure"
NSM = "http://opensimulationplatform.com/MSMI/OSPModelDescription"


def hx(s):
    return s.encode("utf-8").hex() or "."


def nm(s):
    return "".join(chr(c) if 32 <= c <= 126 and chr(c) not in '"\\%' else "%%%02X" % c for c in s.encode("utf-8"))


def V(n, ty, ca, vb="continuous"):
    return {"n": n, "ty": ty, "ca": ca, "vb": vb}


def the_models(r):
    odd = ["a[1].x y", "\u00e6", "\u00f8", "a&b", "<q>", "it's \"so\"", "in[0]", "out", "x:y"]
    r.shuffle(odd)
    out = []
    for m in ("alpha", "beta", "gamma"):
        vs = [V("y%d" % i, "real", "out") for i in range(4)] + [V("u%d" % i, "real", "in") for i in range(6)]
        vs += [V("c0", "real", "calc", "tunable"), V("p0", "real", "param", "tunable"), V("k0", "real", "param", "constant"),
               V("k1", "int", "out", "constant"), V("f0", "real", "in", "fixed"), V("d0", "real", "in", "constant"), V("l0", "real", "local"),
               V("n0", "int", "out", "discrete"), V("n1", "int", "in", "discrete"), V("n2", "int", "calc", "fixed"),
               V("b0", "bool", "out", "discrete"), V("b1", "bool", "in", "discrete"),
               V("s0", "str", "out", "discrete"), V("s1", "str", "in", "discrete"),
               V("e0", "enum", "out", "discrete"), V("e1", "enum", "in", "discrete")]
        for n in odd[:4]:
            vs.append(V(n, "real", r.choice(["in", "out"])))
        out.append({"name": m, "vars": vs})
    return out


def number(r, lo, hi):
    """(text, microseconds), the text in one of several forms"""
    v = r.randint(lo, hi)
    return dec(r, v), v


def dec(r, v):
    s = "%s%d.%06d" % ("-" if v < 0 else "", abs(v) // 1000000, abs(v) % 1000000)
    x = r.random()
    if x < 0.4:
        return s.rstrip("0").rstrip(".")
    if x < 0.5:
        return "%de-6" % v
    if x < 0.6:
        return "%dE-06" % v
    if x < 0.7 and v >= 0:
        return "+" + s
    if x < 0.8:
        return "0" + s if v >= 0 else s
    if x < 0.85:
        return r.choice(["  %s", "%s ", "\n %s\t"]) % s
    if x < 0.9 and 0 < v < 1000000:
        return s[1:]
    if x < 0.95 and v % 1000000 == 0:
        return s[:-6]
    return s


ABSENT = {"given": False, "ok": True, "v": 0}
BADNUM = ["NaN", "INF", "-INF", "1e300", "-1e300", "1e12"]


class Gen:
    def __init__(self, r, big=False):
        self.r = r
        self.big = big
        self.models = the_models(r)
        self.emds = []
        self.shapes()
        self.used = set()

    # -- model descriptions
    def tree(self, depth=0):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3]) if depth else r.choice([0, 1, 2, 2, 3])
        subs = []
        if depth < 3 and r.random() < (0.4 if depth == 0 else 0.35):
            subs = [self.tree(depth + 1) for _ in range(r.choice([1, 1, 2]))]
        return (n, subs)

    def shapes(self):
        """A few shapes; every model description realises each of them with
        outputs and with inputs."""
        r = self.r
        self.shape = [self.tree() for _ in range(2)] + [(2, []), (r.choice([1, 3]), [])]
        for d, m in [("conf", "alpha"), ("sub", "alpha"), ("conf", "beta"), ("sub", "beta"), ("up", "alpha"), ("up", "gamma"), ("up", "beta")]:
            if r.random() < 0.25:
                continue
            names = iter(range(1000))
            prefix = {"conf": "", "sub": "", "up": "up"}[d]
            # names unique throughout, except for some that occur once at the top as well
            def inst(t, side, dirn, top, pos):
                n, subs = t
                mv = [x["n"] for x in next(x for x in self.models if x["name"] == m)["vars"] if x["ty"] == "real"
                      and (x["ca"] == "out" if side == "o" else x["ca"] == "in" and x["vb"] == "continuous")]
                r.shuffle(mv)
                vs = [mv[i % len(mv)] for i in range(n)]
                name = "%s%s%s" % (prefix, side, pos)
                return {"name": name, "vars": vs, "subs": [inst(s, side, dirn, False, pos + "." + str(i)) for i, s in enumerate(subs)]}
            gs = []
            for i, t in enumerate(self.shape):
                for side in "oi":
                    g = inst(t, side, d, True, str(i))
                    gs.append(g)
            r.shuffle(gs)
            if r.random() < 0.5:
                # inner groups of the same name in different groups
                inner = [g for g in gs if g["subs"]]
                for g in inner:
                    g["subs"][0]["name"] = "same"
            self.emds.append({"dir": d, "model": m, "bad": False, "groups": gs})

    # -- the parts
    def desc(self):
        r = self.r
        D = {"valid": True, "models": self.models, "emds": self.emds, "start": dict(ABSENT), "stop": dict(ABSENT), "step": dict(ABSENT),
             "sims": [], "funs": [], "vcs": [], "gcs": [], "scs": [], "sgs": []}
        lo = 0
        if r.random() < 0.7:
            D["start"] = self.num(-2000000, 5000000)
            lo = D["start"]["v"]
        if r.random() < 0.6:
            D["stop"] = self.num(max(lo, -1000), max(lo, 0) + r.choice([0, 1, 10**6, 10**8]))
        if r.random() < 0.7:
            D["step"] = self.num(1, r.choice([1, 1000, 10**6]))
        names = ["A", "B", "C", "D d", "E.e", "\u00e6", "\u00f8", "f&g"]
        if self.big:
            names += ["sim %d" % i for i in range(40)] + ["x" * 300]
        r.shuffle(names)
        for i in range(r.randint(9, 28) if self.big else r.choice([0, 1, 2, 2, 3, 3, 4])):
            D["sims"].append(self.sim(names.pop()))
        for kind in ("lin", "sum", "vec"):
            for _ in range(r.choice([1, 3, 5]) if self.big else r.choice([0, 0, 1, 1, 2])):
                if not D["sims"] or not names:
                    continue
                self.fun(D, kind, names.pop())
        if D["sims"]:
            for _ in range(r.randint(20, 50) if self.big else r.choice([0, 1, 2, 3])):
                self.vconn(D)
            for _ in range(r.randint(5, 15) if self.big else r.choice([0, 1, 1, 2])):
                self.gconn(D)
        for k in ("vcs", "gcs", "scs", "sgs"):
            r.shuffle(D[k])
        return D

    def num(self, lo, hi):
        t, v = number(self.r, lo, hi)
        return {"given": True, "ok": True, "v": v, "t": t}

    def sim(self, name):
        r = self.r
        m = r.choice(["alpha", "beta", "alpha", "beta", "gamma"])
        src, look, uri = r.choice([(m + ".fmu", "conf", m + ".fmu"), (m + ".fmu", "conf", "./" + m + ".fmu"), ("sub/" + m + ".fmu", "sub", "sub/" + m + ".fmu"),
                                   ("sub/" + m + ".fmu", "sub", "file:///@ROOT@/cfg/sub/" + m + ".fmu"), ("fake:" + m, "conf", "fake:" + m),
                                   ("fake://h?file=sub/" + m + ".fmu", "sub", "fake://h?file=sub/" + m + ".fmu"),
                                   ("fake://h?file=" + m + ".fmu", "conf", "fake://h?file=" + m + ".fmu"),
                                   ("fake://h?file=file:cfg/sub/" + m + ".fmu", "sub", "fake://h?file=file:///@ROOT@/cfg/sub/" + m + ".fmu"),
                                   ("fake://h?file=file:cfg/sub/" + m + ".fmu", "sub", "fake://h?file=/@ROOT@/cfg/sub/" + m + ".fmu"),
                                   ("fake://h?file=./%73ub/../sub/" + m + ".fmu", "sub", "fake://h?file=./%73ub/../sub/" + m + ".fmu"),
                                   ("fake://h?file=file:cfg/sub/" + m + ".fmu", "sub", "fake://h?file=file://localhost/@ROOT@/cfg/sub/" + m + ".fmu"),
                                   ("fake://h?profile=sub/" + m + ".fmu", "conf", "fake://h?profile=sub/" + m + ".fmu")])
        if not src.startswith("fake"):
            src = "cfg/" + src
        hint = dict(ABSENT) if r.random() < 0.5 else self.num(0, r.choice([0, 1000, 10**6]))
        inits = []
        vs = next(x for x in self.models if x["name"] == m)["vars"]
        for _ in range(r.randint(5, 30) if self.big else r.choice([0, 0, 1, 2, 4])):
            v = r.choice([x for x in vs if x["vb"] != "constant" and x["ty"] != "enum"])
            inits.append(self.init(v["n"], v["ty"]))
        return {"name": name, "src": src, "model": m, "look": look, "uri": uri, "hint": hint, "inits": inits}

    def init(self, n, ty):
        r = self.r
        if ty == "real":
            t = r.choice(["0", "1", "-1", "2.5", "1e-3", "-0.1", "1E6", "+3", "007.5", "3.0000000000000004", "1e-300", "-0", " 2", "3\t", ".5", "4."])
            return {"var": n, "ty": ty, "ok": True, "t": t, "v": "%.17g" % float(t)}
        if ty == "int":
            t = r.choice(["0", "1", "-1", "2147483647", "-2147483648", "+7", "0012", " 5 "])
            return {"var": n, "ty": ty, "ok": True, "t": t, "v": str(int(t))}
        if ty == "bool":
            t = r.choice(["true", "false", "1", "0", " true", "0 "])
            return {"var": n, "ty": ty, "ok": True, "t": t, "v": "true" if t.strip() in ("true", "1") else "false"}
        t = r.choice(["", "x", "a b", "true", "1.5", "\u00e6\u00f8", "<&>\"'", " lead"])
        return {"var": n, "ty": "str", "ok": True, "t": t, "v": t}

    def pick(self, D, want):
        """(sim, var) satisfying want; inputs only once"""
        r = self.r
        for _ in range(40):
            s = r.choice(D["sims"])
            vs = [x for x in next(m for m in self.models if m["name"] == s["model"])["vars"] if want(x)]
            if not vs:
                continue
            v = r.choice(vs)
            if v["ca"] == "in":
                if (s["name"], v["n"]) in self.used:
                    continue
                self.used.add((s["name"], v["n"]))
            return s["name"], v["n"]
        return D["sims"][0]["name"], "u0"

    def gives(self, ty):
        return lambda x: x["ty"] == ty and x["ca"] in ("out", "calc")

    def takes(self, ty):
        return lambda x: x["ty"] == ty and x["ca"] == "in" and x["vb"] not in ("fixed", "constant")

    def vconn(self, D):
        r = self.r
        ty = r.choice(["real", "real", "real", "int", "bool", "str", "enum"])
        a, b = self.pick(D, self.gives(ty)), self.pick(D, self.takes(ty))
        if r.random() < 0.5:
            a, b = b, a
        D["vcs"].append({"as": a[0], "an": a[1], "bs": b[0], "bn": b[1]})

    def groups_of(self, s):
        e = [e for e in self.emds if e["dir"] == s["look"] and e["model"] == s["model"]] or [e for e in self.emds if e["dir"] == "conf" and e["model"] == s["model"]]
        return e[0]["groups"] if e else []

    def inside(self, gs):
        return [x for g in gs for x in [g] + self.inside(g["subs"])]

    def leaves(self, g):
        return g["vars"] + [v for x in g["subs"] for v in self.leaves(x)]

    def gconn(self, D):
        r = self.r
        for _ in range(20):
            a, b = r.choice(D["sims"]), r.choice(D["sims"])
            ga, gb = self.groups_of(a), self.groups_of(b)
            if not ga or not gb:
                continue
            if r.random() < 0.3:
                ga, gb = self.inside(ga), self.inside(gb)
            x = [g for g in ga if "o" in g["name"] and g["name"] != "same"]
            if not x:
                continue
            x = r.choice(x)
            y = [g for g in gb if g["name"] == x["name"].replace("o", "i")]
            if not y:
                continue
            y = y[0]
            t = [(b["name"], v) for v in self.leaves(y)]
            if len(set(t)) < len(t) or set(t) & self.used:
                if r.random() < 0.9:
                    continue
            self.used |= set(t)
            p, q = (a["name"], x["name"]), (b["name"], y["name"])
            if r.random() < 0.5:
                p, q = q, p
            D["gcs"].append({"as": p[0], "an": p[1], "bs": q[0], "bn": q[1]})
            return

    def fun(self, D, kind, name):
        r = self.r
        f = {"kind": kind, "name": name, "count": 0, "dim": 0, "factor": "1", "offset": "0"}
        if kind == "lin":
            for k, d in (("factor", "1"), ("offset", "0")):
                if r.random() < 0.6:
                    t = r.choice(["2", "-0.5", "1e3", "0", "0.1"])
                    f[k], f["t" + k] = "%.17g" % float(t), t
            D["scs"].append(self.sc(f, "in", -1, self.pick(D, self.gives("real"))))
            for _ in range(r.choice([1, 1, 1, 2])):
                D["scs"].append(self.sc(f, "out", -1, self.pick(D, self.takes("real"))))
        elif kind == "sum":
            f["count"] = r.choice([1, 2, 3, 17] if self.big else [1, 2, 3])
            for i in range(f["count"]):
                D["scs"].append(self.sc(f, "in", i, self.pick(D, self.gives("real"))))
            for _ in range(r.choice([1, 1, 1, 2])):
                D["scs"].append(self.sc(f, "out", -1, self.pick(D, self.takes("real"))))
        else:
            f["count"] = r.choice([1, 2])
            for _ in range(20):
                ins = [(s["name"], g) for s in D["sims"] for g in self.groups_of(s) if g["name"].startswith("o") and not g["subs"] and g["vars"]]
                outs = [(s["name"], g) for s in D["sims"] for g in self.groups_of(s) if g["name"].startswith("i") and not g["subs"]
                        and not {(s["name"], v) for v in g["vars"]} & self.used and len(set(g["vars"])) == len(g["vars"])]
                if not ins:
                    return
                f["dim"] = len(r.choice(ins)[1]["vars"])
                i = [x for x in ins if len(x[1]["vars"]) == f["dim"]]
                o = [x for x in outs if len(x[1]["vars"]) == f["dim"]]
                if not o:
                    continue
                for k in range(f["count"]):
                    s, g = r.choice(i)
                    D["sgs"].append({"fun": name, "sig": {"k": "in", "i": k}, "sim": s, "grp": g["name"]})
                s, g = r.choice(o)
                self.used |= {(s, v) for v in g["vars"]}
                D["sgs"].append({"fun": name, "sig": {"k": "out", "i": -1}, "sim": s, "grp": g["name"]})
                break
            else:
                return
        D["funs"].append(f)

    def sc(self, f, k, i, e):
        return {"fun": f["name"], "sig": {"k": k, "i": i}, "sim": e[0], "var": e[1]}


# -- breaking a description
def some(r, D, k):
    return r.choice(D[k]) if D[k] else None


def mutate(r, D, g):
    """One change; most of them leave nothing to be loaded."""
    k = r.choice(["vend", "vend", "vsame", "vdup", "gend", "gend", "gsize", "gboth", "gdup", "sdrop", "sdup", "sunk", "sunk", "sbad", "gsdrop", "gsdup", "gsunk", "gsdim", "gsingle",
                  "name", "fname", "fname", "empty", "model", "init", "init", "initval", "hint", "time", "time", "stop", "step", "emdbad", "emddrop", "ginner"])
    r2 = r.random()
    c, s, f = some(r, D, "vcs"), some(r, D, "sims"), some(r, D, "funs")
    if k == "vend" and c:
        x = r.choice("ab")
        if r2 < 0.3:
            c[x + "s"] = r.choice(["nobody", "", f["name"] if f else "A "])
        else:
            c[x + "n"] = r.choice(["nothing", "", "l0", "k0", "p0", "f0", "d0", "y0", "u0", "n0", "n1", "n2", "k1", "c0", "e1", "Y0"])
    elif k == "vsame" and c:
        c["bs"], c["bn"] = c["as"], c["an"]
    elif k == "vdup" and c:
        n = dict(c)
        if r2 < 0.5:
            n["as"], n["an"], n["bs"], n["bn"] = c["bs"], c["bn"], c["as"], c["an"]
        D["vcs"].append(n)
    elif k == "gend" and D["gcs"]:
        c, x = some(r, D, "gcs"), r.choice("ab")
        c[x + ("s" if r2 < 0.3 else "n")] = "nobody"
    elif k == "gboth" and s:
        t = some(r, D, "sims")
        D["gcs"].append({"as": s["name"], "an": "none", "bs": t["name"], "bn": "nothing"})
    elif k in ("gsize", "ginner") and s:
        t = some(r, D, "sims")
        ga, gb = g.groups_of(s), g.groups_of(t)
        if k == "ginner":
            ga, gb = g.inside(ga), g.inside(gb)
        ga, gb = [x for x in ga if x["name"] != "same"], [x for x in gb if x["name"] != "same"]
        if ga and gb:
            D["gcs"].append({"as": s["name"], "an": r.choice(ga)["name"], "bs": t["name"], "bn": r.choice(gb)["name"]})
    elif k == "gdup" and D["gcs"]:
        D["gcs"].append(dict(some(r, D, "gcs")))
    elif k == "sdrop" and D["scs"]:
        D["scs"].remove(some(r, D, "scs"))
    elif k == "sdup" and D["scs"]:
        c = dict(some(r, D, "scs"))
        if s and r2 < 0.5:
            c["sim"], c["var"] = s["name"], r.choice(["y0", "y1", "u0", "u1"])
        D["scs"].append(c)
    elif k == "sunk" and s:
        fn = r.choice([f["name"], "nofun", s["name"]]) if f else "nofun"
        D["scs"].append({"fun": fn, "sig": {"k": r.choice(["in", "out", "foo"]), "i": r.choice([-1, 0, 1, 9])}, "sim": s["name"], "var": r.choice(["y0", "u0", "u4"])})
    elif k == "sbad" and D["scs"]:
        c = some(r, D, "scs")
        if r2 < 0.2:
            c["sim"] = "nobody"
        else:
            c["var"] = r.choice(["nothing", "n0", "n1", "l0", "p0", "f0", "y0", "u0", "b1"])
    elif k == "gsdrop" and D["sgs"]:
        D["sgs"].remove(some(r, D, "sgs"))
    elif k == "gsdup" and D["sgs"]:
        D["sgs"].append(copy.deepcopy(some(r, D, "sgs")))
    elif k == "gsunk" and s:
        fn = r.choice([f["name"], "nofun"]) if f else "nofun"
        gs = g.groups_of(s)
        D["sgs"].append({"fun": fn, "sig": {"k": r.choice(["in", "out", "foo"]), "i": r.choice([-1, 0, 5])}, "sim": s["name"], "grp": r.choice(gs)["name"] if gs else "g"})
    elif k == "gsdim":
        v = [f for f in D["funs"] if f["kind"] == "vec"]
        if v:
            v = r.choice(v)
            if r2 < 0.5:
                v["dim"] = max(1, v["dim"] + r.choice([-1, 1]))
            else:
                v["count"] = max(1, v["count"] + r.choice([-1, 1]))
    elif k == "gsingle" and D["sgs"]:
        c = some(r, D, "sgs")
        if r2 < 0.5:
            c["grp"] = "nothing"
        else:
            c["sim"] = "nobody"
    elif k == "name" and s:
        s["name"] = r.choice([some(r, D, "sims")["name"], "Z", ""])
    elif k == "fname" and f:
        f["name"] = r.choice([some(r, D, "funs")["name"], s["name"] if s else "Z", "Z"])
    elif k == "empty":
        D["sims"].append({"name": "", "src": "cfg/alpha.fmu", "model": "alpha", "look": "conf", "uri": "alpha.fmu", "hint": dict(ABSENT), "inits": []})
    elif k == "model" and s:
        s["model"], s["uri"] = "?", r.choice(["nosuch.fmu", "other:alpha", "http://x/alpha.fmu", ""])
    elif k == "init" and s:
        vs = next((m for m in D["models"] if m["name"] == s["model"]), D["models"][0])["vars"]
        v = r.choice(vs + [{"n": "nothing", "ty": "real"}])
        s["inits"].insert(r.randint(0, len(s["inits"])), g.init(v["n"], r.choice(["real", "int", "bool", "str"]) if r2 < 0.6 else v["ty"].replace("enum", "int")))
    elif k == "initval" and s:
        ty = r.choice(["real", "int", "bool"])
        t = {"real": ["abc", "", "1,5", "0x1"], "int": ["1.5", "2147483648", "", "1e3"], "bool": ["yes", "2", "", "TRUE"]}[ty]
        s["inits"].append({"var": {"real": "u0", "int": "n1", "bool": "b1"}[ty], "ty": ty, "t": r.choice(t), "ok": False, "v": ""})
    elif k == "hint" and s:
        s["hint"] = r.choice([{"given": True, "ok": False, "v": 0, "t": r.choice(BADNUM + ["abc", ""])}, {"given": True, "ok": True, "v": -1000, "t": "-0.001"}, {"given": True, "ok": True, "v": -1, "t": "-1e-6"}])
    elif k == "time":
        x = r.choice(["start", "stop", "step"])
        D[x] = {"given": True, "ok": False, "v": 0, "t": r.choice(BADNUM + ["abc", "1 2"])}
    elif k == "stop":
        st = D["start"]["v"] if D["start"]["given"] else 0
        v = st - r.choice([1, 1000, 10**6])
        D["stop"] = {"given": True, "ok": True, "v": v, "t": dec(r, v)}
    elif k == "step":
        v = r.choice([0, -1, -1000000])
        if r2 < 0.2:
            D["step"] = {"given": True, "ok": True, "v": 0, "t": "1e-10"}
            return
        D["step"] = {"given": True, "ok": True, "v": v, "t": dec(r, v)}
    elif k == "emdbad" and D["emds"]:
        e = some(r, D, "emds")
        e["bad"], e["groups"] = True, []
    elif k == "emddrop" and D["emds"]:
        D["emds"].remove(some(r, D, "emds"))
    else:
        return mutate(r, D, g)


# -- as text
def el(name, attrs, kids=()):
    a = "".join(" %s=%s" % (k, quoteattr(v)) for k, v in attrs)
    return "<%s%s>%s</%s>" % (name, a, "\n".join(kids), name) if kids else "<%s%s/>" % (name, a)


def sigtext(s):
    return s["k"] + ("[%d]" % s["i"] if s["i"] >= 0 else "")


def structure(r, D):
    p = []
    for k, t in (("start", "StartTime"), ("stop", "EndTime"), ("step", "BaseStepSize")):
        if D[k]["given"]:
            p.append("<%s>%s</%s>" % (t, D[k]["t"], t))
    if r.random() < 0.3:
        p.append("<Algorithm>fixedStep</Algorithm>")
    sims = []
    for s in D["sims"]:
        a = [("name", s["name"]), ("source", s["uri"])] + ([("stepSize", s["hint"]["t"])] if s["hint"]["given"] else [])
        if r.random() < 0.3:
            r.shuffle(a)
        iv = [el("InitialValue", [("variable", i["var"])], [el({"real": "Real", "int": "Integer", "bool": "Boolean", "str": "String"}[i["ty"]], [("value", i["t"])])]) for i in s["inits"]]
        sims.append(el("Simulator", a, [el("InitialValues", [], iv)] if iv or r.random() < 0.1 else []))
    p.append(el("Simulators", [], sims))
    if D["funs"] or r.random() < 0.1:
        fs = []
        for k in ("lin", "sum", "vec"):
            for f in D["funs"]:
                if f["kind"] == k:
                    a = [("name", f["name"])]
                    if k == "lin":
                        a += [(x, f["t" + x]) for x in ("factor", "offset") if "t" + x in f]
                    else:
                        a.append(("inputCount", str(f["count"])))
                    if k == "vec":
                        a.append(("dimension", str(f["dim"])))
                    fs.append(el({"lin": "LinearTransformation", "sum": "Sum", "vec": "VectorSum"}[k], a))
        p.append(el("Functions", [], fs))
    def end(tag, s, n):
        return el(tag, [("simulator", s), ("name", n)])
    cs = [[el("VariableConnection", [], [end("Variable", c["as"], c["an"]), end("Variable", c["bs"], c["bn"])]) for c in D["vcs"]],
          [el("VariableGroupConnection", [], [end("VariableGroup", c["as"], c["an"]), end("VariableGroup", c["bs"], c["bn"])]) for c in D["gcs"]]]
    for key, a, b, n in (("scs", "Signal", "Variable", "var"), ("sgs", "SignalGroup", "VariableGroup", "grp")):
        l = []
        for c in D[key]:
            ks = [el(a, [("function", c["fun"]), ("name", sigtext(c["sig"]))]), end(b, c["sim"], c[n])]
            r.shuffle(ks)
            l.append(el(a + "Connection", [], ks))
        cs.append(l)
    # mixed, but in order within each kind
    merged, idx = [], [0] * 4
    order = [i for i, l in enumerate(cs) for _ in l]
    r.shuffle(order)
    for i in order:
        merged.append(cs[i][idx[i]])
        idx[i] += 1
    if merged:
        if r.random() < 0.2:
            merged.insert(r.randint(0, len(merged)), "<!-- <VariableConnection/> -->")
        p.append(el("Connections", [], merged))
    root = el("OspSystemStructure", [("xmlns", NSS), ("version", "0.1")], p)
    return '<?xml version="1.0" encoding="utf-8"?>\n' + root + "\n"


def emdtext(r, e):
    if e["bad"]:
        return r.choice(["", "<OspModelDescription", '<OspModelDescription xmlns="%s" version="0.1"/>' % NSM, "not xml",
                         '<OspModelDescription xmlns="%s"><UnitDefinitions/></OspModelDescription>' % NSM, "<a><b></a>"])
    def grp(g):
        # every kind of group means the same to the loader
        tag = "Generic"
        if not g["subs"] and 1 <= len(g["vars"]) <= 3 and r.random() < 0.3:
            tag = r.choice(["Force", "LinearVelocity"])
        vs = [el("Variable", [("ref", v)] + ([("unit", "u")] if r.random() < 0.2 else [])) for v in g["vars"]]
        return el(tag, [("name", g["name"])], [grp(x) for x in g["subs"]] + vs)
    ud = '<UnitDefinitions><Unit name="u"><BaseUnit m="1"/></Unit></UnitDefinitions>' if r.random() < 0.3 else ""
    return '<?xml version="1.0" encoding="utf-8"?>\n' + el("OspModelDescription", [("xmlns", NSM), ("version", "0.1")], [x for x in (ud, el("VariableGroups", [], [grp(g) for g in e["groups"]])) if x])


def invalid(r, x):
    """A text that does not conform to the schema."""
    k = r.randint(0, 9)
    if k == 0:
        return x[:r.randint(60, len(x) - 20)]
    if k == 1:
        return x.replace(' version="0.1"', "", 1) if ' version="0.1">' in x else ""
    if k == 2:
        return x.replace("MSMI/OSPSystemStructure", "MSMI/Other")
    if k == 3:
        return x.replace("<Simulators", "<Simulatoren").replace("</Simulators", "</Simulatoren")
    if k == 4:
        return x.replace("</OspSystemStructure>", "<Extra/></OspSystemStructure>")
    if k == 5:
        return x.replace("</OspSystemStructure>", '<Connections><VariableConnection><Variable simulator="A" name="x"/></VariableConnection></Connections></OspSystemStructure>') if "<Connections" not in x else ""
    if k == 6:
        return x.replace("<Simulators>", '<Simulators><Simulator name="noSource"/>') if "<Simulators>" in x else ""
    if k == 7:
        return x.replace("<OspSystemStructure", "<OspSystem").replace("</OspSystemStructure", "</OspSystem")
    if k == 8:
        return x.replace("<?xml", "<?xml version=\"9\"", 1)
    return x.replace('version="0.1"', 'version="7"', 1) if '" version="0.1">' in x else ""


def strip(D):
    """The description as the specification sees it."""
    D = copy.deepcopy(D)
    for k in ("start", "stop", "step"):
        D[k].pop("t", None)
    for s in D["sims"]:
        s["hint"].pop("t", None)
        s.pop("uri")
        s["src"], s["name"] = nm(s["src"]), nm(s["name"])
        for i in s["inits"]:
            i.pop("t")
            i["var"], i["v"] = nm(i["var"]), nm(i["v"])
    for f in D["funs"]:
        f.pop("tfactor", None)
        f.pop("toffset", None)
        f["name"] = nm(f["name"])
    for m in D["models"]:
        for v in m["vars"]:
            v["n"] = nm(v["n"])
    for k in ("vcs", "gcs", "scs", "sgs"):
        for c in D[k]:
            for x in c:
                if isinstance(c[x], str):
                    c[x] = nm(c[x])

    def grp(g):
        g["name"], g["vars"] = nm(g["name"]), [nm(v) for v in g["vars"]]
        for x in g["subs"]:
            grp(x)
    for e in D["emds"]:
        for g in e["groups"]:
            grp(g)
    return D


def scenario(name, r, D):
    lines = ["model %s %s" % (m["name"], ",".join("%s:%s:%s:%s" % (hx(v["n"]), v["ty"], v["ca"], v["vb"]) for v in m["vars"])) for m in D["models"]]
    text = structure(r, D)
    if not D["valid"]:
        t = invalid(r, text)
        while t == text:
            t = invalid(r, text)
        text = t
    dirs = {"conf": "cfg/", "sub": "cfg/sub/", "up": ""}
    lines += ["file cfg/sub/readme 00", "file other/x 00"]
    for e in D["emds"]:
        lines.append("file %s%s_OspModelDescription.xml %s" % (dirs[e["dir"]], e["model"], hx(emdtext(r, e))))
    fn = r.choice(["OspSystemStructure.xml"] * 3 + ["s.xml"])
    lines.append("file cfg/%s %s" % (fn, hx(text).replace("2f" + "@ROOT@".encode().hex(), "@ROOT@".encode().hex())))
    ways = ["cfg/" + fn] + (["cfg", "cfg/", "cfg/sub/.."] if fn[0] == "O" else ["cfg/./" + fn])
    if r.random() < 0.1:
        lines.append("locale C.UTF-8")
    for _ in range(r.choice([1, 2])):
        lines.append("load %s %s" % (r.choice(ways), r.choice(["abs", "rel"])))
    return (name, strip(D), lines)


def rnd(seed, n, big=False):
    out = []
    for i in range(n):
        r = random.Random("%s-osp-%s%d" % (seed, "big" if big else "", i))
        g = Gen(r, big)
        D = g.desc()
        for _ in range(r.choice([0, 0, 0, 1] if big else [0, 0, 0, 1, 1, 1, 1, 2])):
            mutate(r, D, g)
        if r.random() < 0.06:
            D["valid"] = False
        out.append(scenario("osp%s%d" % ("big" if big else "", i), r, D))
    return out
