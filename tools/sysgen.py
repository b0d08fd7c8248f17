"""Scenarios for system_structure and functions (specs SysStruct, Function; harness sysstruct)."""
import random

LINEAR = {"params": [dict(ty=1, def_=0, hasmin=0, min=0, hasmax=0, max=0), dict(ty=1, def_=16, hasmin=0, min=0, hasmax=0, max=0)],
          "groups": [dict(name="in", cnt=[0, 1], ios=[dict(name="", ty=[0, 1], ca=1, cnt=[0, 1])]),
                     dict(name="out", cnt=[0, 1], ios=[dict(name="", ty=[0, 1], ca=2, cnt=[0, 1])])]}
SUM = {"params": [dict(ty=2, def_=1, hasmin=1, min=1, hasmax=0, max=0), dict(ty=3, def_=1, hasmin=0, min=0, hasmax=0, max=0),
                  dict(ty=2, def_=1, hasmin=1, min=1, hasmax=0, max=0)],
       "groups": [dict(name="in", cnt=[1, 0], ios=[dict(name="", ty=[1, 1], ca=1, cnt=[1, 2])]),
                  dict(name="out", cnt=[0, 1], ios=[dict(name="", ty=[1, 1], ca=2, cnt=[1, 2])])]}


def jtype(t):
    return {"params": [{("def" if k == "def_" else k): v for k, v in p.items()} for p in t["params"]], "groups": t["groups"]}


def qq(s):
    return s or "-"


def type_tokens(t):
    o = [len(t["params"])]
    for p in t["params"]:
        o += [p["ty"], p["def_"], p["hasmin"], p["min"], p["hasmax"], p["max"]]
    o.append(len(t["groups"]))
    for g in t["groups"]:
        o += [qq(g["name"]), *g["cnt"], len(g["ios"])]
        for i in g["ios"]:
            o += [qq(i["name"]), *i["ty"], i["ca"], *i["cnt"]]
    return " ".join(map(str, o))


def rtype(r):
    ps = []
    for _ in range(r.randint(0, 4)):
        ty = r.choice([1, 2, 2, 3])
        if ty == 3:
            ps.append(dict(ty=3, def_=r.randint(1, 4), hasmin=0, min=0, hasmax=0, max=0))
        else:
            s = 16 if ty == 1 else 1
            lo, hi = int(r.random() < 0.6), int(r.random() < 0.4)
            ps.append(dict(ty=ty, def_=r.randint(1, 3) * s, hasmin=lo, min=r.randint(0, 1) * s if lo else 0, hasmax=hi, max=r.randint(3, 4) * s if hi else 0))

    def fld(ty, const):
        c = [k for k, p in enumerate(ps) if p["ty"] == ty]
        if c and r.random() < 0.6:
            return [1, r.choice(c)]
        if r.random() < 0.04:
            return [1, r.choice([-1, len(ps), 7] + list(range(len(ps))))]
        return [0, const()]
    gs = []
    for n in range(r.randint(1, 3)):
        ios = [dict(name=["", "x", "y"][i], ty=fld(3, lambda: r.randint(1, 4)), ca=r.choice([1, 2]), cnt=fld(2, lambda: r.randint(1, 3)))
               for i in range(r.randint(1, 3))]
        gs.append(dict(name=["in", "out", "g"][n], cnt=fld(2, lambda: r.randint(1, 3)), ios=ios))
    return {"params": ps, "groups": gs}


def rparams(r, t, bad=0.12):
    out = []
    n = len(t["params"])
    for k in range(n):
        if r.random() < 0.5:
            continue
        d = t["params"][k]
        ty = d["ty"]
        if r.random() < bad:
            ty = r.choice([1, 2, 3])
        lo = d["min"] if d["hasmin"] else d["def_"] - 32
        hi = d["max"] if d["hasmax"] else d["def_"] + 3
        if ty == 3:
            v = r.choice([1, 1, 2, 2, 3, 4])
        elif r.random() < bad:
            v = r.choice([lo - 1, hi + 1, -5])
        else:
            v = r.choice([lo, hi, d["def_"], r.randint(min(lo, hi), max(lo, hi))])
        if ty == 1:
            v = v // 4 * 4 if d["ty"] == 1 and r.random() < 0.8 else v
        if ty == 2 and d["ty"] == 2 and not d["hasmin"]:
            v = max(v, 0)
        out.append((k, ty, v))
    if r.random() < 0.06:
        out.append((n + r.randint(0, 2), 2, 1))
    r.shuffle(out)
    return out


def ptok(p):
    return "%d %s" % (len(p), " ".join("%d %d %d" % x for x in p))


def functions(seed, n):
    out = []
    for k in range(n):
        r = random.Random("%s-fun-%d" % (seed, k))
        L = []
        kind = 0
        shape = (1, 1)
        ty = 1
        for _ in range(r.randint(6, 30)):
            x = r.random()
            if x < 0.1 or kind == 0:
                kind = r.choice([1, 2, 2])
                t = LINEAR if kind == 1 else SUM
                p = rparams(r, t, 0.08)
                if kind == 1:
                    p = [(a, b, c // 4 * 4 if b == 1 else c) for a, b, c in p]
                if r.random() < 0.75:
                    L.append("inst %d %s" % (kind, ptok(p)))
                    d = {a: (b, c) for a, b, c in p}
                    if kind == 2:
                        shape = (d.get(0, (2, 1))[1], d.get(2, (2, 1))[1])
                        ty = d.get(1, (3, 1))[1]
                    else:
                        shape, ty = (1, 1), 1
                elif kind == 1:
                    L.append("linear %d %d" % (r.randint(-40, 40) * 4, r.randint(-20, 20) * 4))
                    shape, ty = (1, 1), 1
                else:
                    shape = (r.choice([0, -1, 1, 1, 2, 3, 5, 17]), r.choice([0, -2, 1, 1, 2, 3, 4, 12]))
                    ty = r.choice([1, 2])
                    L.append("sum %d %d %d" % (ty, *shape))
            elif x < 0.5:
                ref = [0, r.randint(0, max(0, shape[0] - 1)), 0, r.randint(0, max(0, shape[1] - 1))]
                if r.random() < 0.1:
                    ref[r.randrange(4)] = r.choice([-1, 1, 2, 3, 9])
                t = ty if r.random() < 0.93 else r.randint(1, 4)
                L.append("set %d %d %d %d %d %d" % (t, *ref, r.randint(-100, 100) * 4 if t != 4 else 3))
            elif x < 0.62:
                L.append("calc")
            elif x < 0.92:
                out_ = r.random() < 0.6
                ref = [1, 0, 0, r.randint(0, max(0, shape[1] - 1))] if out_ else [0, r.randint(0, max(0, shape[0] - 1)), 0, r.randint(0, max(0, shape[1] - 1))]
                if r.random() < 0.1:
                    ref[r.randrange(4)] = r.choice([-1, 1, 2, 3, 9])
                t = ty if r.random() < 0.95 else r.randint(1, 4)
                L.append("get %d %d %d %d %d" % (t, *ref))
            else:
                L.append("desc")
            if L[-1] == "calc":
                L += ["get %d 1 0 0 %d" % (ty, d) for d in range(max(1, shape[1]))]
        for _ in range(r.randint(1, 4)):
            t = r.choice([LINEAR, SUM, rtype(r), rtype(r), rtype(r)])
            L.append("subst %s %s" % (ptok(rparams(r, t)), type_tokens(t)))
            if t["params"]:
                L.append("param %d %s %s" % (r.randrange(len(t["params"])), ptok(rparams(r, t)), type_tokens(t)))
        if k % 10 == 0:
            L += ["type 1", "type 2"]
        out.append(("fun%d" % k, {}, L))
    return out


def structures(seed, n, big=False):
    out = []
    for k in range(n):
        r = random.Random("%s-sys-%s%d" % (seed, "big" if big else "", k))
        L = []
        models, ftypes = [], []
        for m in range(r.randint(1, 3)):
            L.append("model")
            vs = []
            for v in range(r.randint(15, 40) if big else r.randint(1, 7)):
                vs.append(dict(name=["a", "b", "c", "d", "e", "f", "g"][v] if v < 7 else "v%d" % v, ty=r.choice([1, 1, 1, 2, 3, 4]), ca=r.choice([1, 1, 1, 2, 2, 2, 3, 4, 5]), vb=r.choice([1, 2, 3, 4, 5, 5, 5])))
                L.append("var %s %d %d %d" % (vs[-1]["name"], vs[-1]["ty"], vs[-1]["ca"], vs[-1]["vb"]))
            models.append({"vars": vs})
        for f in range(r.randint(1, 3)):
            w = r.choice(["linear", "sum", "any", "any"])
            t = {"linear": LINEAR, "sum": SUM}.get(w) or rtype(r)
            ftypes.append(t)
            L.append("ftype " + (w if w != "any" else type_tokens(t)))
        cfg = {"models": models, "ftypes": [jtype(t) for t in ftypes]}
        ents = {}
        names = ["s1", "s2", "f1", "f2", "x", "y"] + [c + "n%d" % i for i in range(25) for c in "sf"] * big

        def full(e, want=None):
            e_ = e
            if r.random() < 0.04:
                e_ = r.choice(["nosuch", "", *names])
            if e not in ents:
                return "%s - 0 a 0" % qq(e_)
            kind, ty = ents[e][:2]
            if (kind == "sim") ^ (r.random() < 0.04):
                vs = models[ty - 1]["vars"] if kind == "sim" else [dict(name="a", ca=1)]
                c = [v for v in vs if want is None or (v["ca"] in (2, 4)) == (want == 2)] or vs
                v = r.choice(c)["name"]
                if r.random() < 0.05:
                    v = r.choice(["nosuch", "", "a"])
                return "%s - 0 %s 0" % (qq(e_), qq(v))
            t = ftypes[ty - 1] if kind == "fun" else LINEAR
            c = [(g, i) for g in t["groups"] for i in g["ios"] if want is None or i["ca"] == want] or [(g, i) for g in t["groups"] for i in g["ios"]]
            g, i = r.choice(c)
            gi, ii = r.choice([0, 0, 0, 0, 1, 2]), r.choice([0, 0, 0, 0, 1, 2])
            if r.random() < 0.08:
                gi = r.choice([-1, 5, 3])
            if r.random() < 0.08:
                ii = r.choice([-1, 5, 3])
            gn, vn = g["name"], i["name"]
            if r.random() < 0.04:
                gn = "nosuch"
            if r.random() < 0.04:
                vn = r.choice(["nosuch", "x", ""])
            return "%s %s %d %s %d" % (qq(e_), qq(gn), gi, qq(vn), ii)
        used = set()

        def endpoints(ca):
            """(full name, type) of everything that may be a source (2) or target (1)"""
            for e in sorted(ents):
                kind, ty = ents[e][:2]
                if kind == "sim":
                    for v in models[ty - 1]["vars"]:
                        if (v["ca"] in (2, 4)) if ca == 2 else (v["ca"] == 1 and v["vb"] > 2):
                            yield "%s - 0 %s 0" % (e, v["name"]), v["ty"], kind
                else:
                    t, P = ftypes[ty - 1], {a: c for a, b, c in ents[e][2]}
                    val = lambda f: f[1] if f[0] == 0 else P.get(f[1], t["params"][f[1]]["def_"]) if 0 <= f[1] < len(t["params"]) else 1
                    for g in t["groups"]:
                        for i in g["ios"]:
                            if i["ca"] == ca:
                                gi, ii = r.randint(0, max(0, val(g["cnt"]) - 1)), r.randint(0, max(0, val(i["cnt"]) - 1))
                                yield "%s %s %d %s %d" % (e, g["name"], gi, qq(i["name"]), ii), val(i["ty"]), kind

        def good():
            tg = [x for x in endpoints(1) if x[0] not in used]
            r.shuffle(tg)
            for t, ty, tk in tg:
                so = [x for x in endpoints(2) if x[1] == ty and (tk == "sim" or x[2] == "sim")]
                if so:
                    used.add(t)
                    return "conn %s %s" % (r.choice(so)[0], t)
            return None
        for _ in range(r.randint(150, 250) if big else r.randint(8, 40)):
            x = r.random()
            if x < 0.22 or len(ents) < 2:
                nm = r.choice(names)
                if r.random() < 0.04:
                    nm = ""
                if nm[:1] in ("s", "") or (nm in ("x", "y") and r.random() < 0.6):
                    m = r.randint(1, len(models))
                    h = r.choice([0, 0, 5, 1000, -1]) if r.random() < 0.5 else 0
                    L.append("addsim %s %d %d %d" % (qq(nm), m, h, r.randint(0, 1)))
                    if nm and nm not in ents and h >= 0:
                        ents[nm] = ("sim", m)
                else:
                    f = r.randint(1, len(ftypes))
                    p = rparams(r, ftypes[f - 1], 0.06)
                    L.append("addfun %s %d %d %s" % (qq(nm), f, r.randint(0, 1), ptok(p)))
                    ents.setdefault(nm, ("fun", f, p))
            elif x < 0.62:
                g = good() if r.random() < 0.5 else None
                if g:
                    L.append(g)
                    continue
                es = sorted(ents)
                a, b = r.choice(es), r.choice(es)
                w = (2, 1) if r.random() < 0.85 else (None, None)
                L.append("conn %s %s" % (full(a, w[0]), full(b, w[1])))
                if r.random() < 0.1:
                    L.append(L[-1])
            elif x < 0.78:
                e = r.choice(sorted(ents))
                v = full(e)
                ty = r.randint(1, 4)
                kind, m = ents[e][:2]
                if kind == "sim" and r.random() < 0.8:
                    for d in models[m - 1]["vars"]:
                        if v.split()[3] == d["name"]:
                            ty = d["ty"]
                L.append("val %s %d %d" % (v, ty, r.randint(0, 1) if ty == 3 else r.randint(0, 99)))
            elif x < 0.84:
                L.append("getvar " + full(r.choice(sorted(ents))))
            elif x < 0.9:
                L.append("getio " + full(r.choice(sorted(ents))))
            elif x < 0.95:
                L.append("find " + qq(r.choice(names + [""])))
            else:
                L.append(r.choice(["ents", "conns", "vals"]))
            if L[-1].split()[0] in ("conn",) and r.random() < 0.2:
                L.append("conns")
        L += ["ents", "conns", "vals"]
        out.append(("sys%s%d" % ("big" if big else "", k), cfg, L))
    return out
