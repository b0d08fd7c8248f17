"""Random SSP system structures (spec SspConfig, harness ssp)."""
import copy, random
from ospgen import V, dec, el, hx, nm, number, the_models, ABSENT

NS = [("xmlns:ssd", "http://ssp-standard.org/SSP1/SystemStructureDescription"), ("xmlns:ssc", "http://ssp-standard.org/SSP1/SystemStructureCommon"),
      ("xmlns:ssv", "http://ssp-standard.org/SSP1/SystemStructureParameterValues"), ("xmlns:osp", "http://opensimulationplatform.com/SSP/OSPAnnotations")]
TAG = {"real": "Real", "int": "Integer", "bool": "Boolean", "str": "String"}
BAD = {"real": ["abc", "", "1,5", "1 2"], "int": ["1.5", "2147483648", "", "x"], "bool": ["yes", "2", ""]}
BADNUM = ["abc", "", "1e12", "1e300", "-1e300"]


def clean(t):
    return t.strip()


class Gen:
    def __init__(self, r, big=False):
        self.r = r
        self.big = big
        self.models = the_models(r)
        self.nfile = 0

    def num(self, lo, hi):
        t, v = number(self.r, lo, hi)
        return {"given": True, "ok": True, "v": v, "t": clean(t)}

    def value(self, ty):
        r = self.r
        if ty == "real":
            t = r.choice(["0", "1", "-1", "2.5", "1e-3", "-0.1", "1E6", "+3", "007.5", "3.0000000000000004", "1e-300", ".5", "4."])
            return t, "%.17g" % float(t)
        if ty == "int":
            t = r.choice(["0", "1", "-1", "2147483647", "-2147483648", "+7", "0012"])
            return t, str(int(t))
        if ty == "bool":
            t = r.choice(["true", "false", "1", "0"])
            return t, "true" if t in ("true", "1") else "false"
        t = r.choice(["", "x", "a b", "true", "1.5", "\u00e6\u00f8", "<&>\"'", " lead "])
        return t, t

    def vars(self, m):
        return next(x for x in self.models if x["name"] == m)["vars"]

    def param(self, m):
        r = self.r
        x = r.random() * (0.701 if self.big else 1)
        vs = self.vars(m)
        if x < 0.7:
            v = r.choice([v for v in vs if v["ca"] in ("in", "param") and v["ty"] != "enum"])
            n, ty = v["n"], v["ty"]
        elif x < 0.9:
            v = r.choice(vs)
            n, ty = v["n"], r.choice(["real", "int", "bool", "str", v["ty"].replace("enum", "int")])
        else:
            n, ty = r.choice(["nothing", "", "u0 "]), r.choice(["real", "str"])
        t, v = self.value(ty)
        return {"var": n, "ty": ty, "ok": True, "t": t, "v": v}

    def pset(self, m):
        r = self.r
        return {"name": r.choice(["s1", "s2", "s3", "init values", "\u00e6"]), "ok": True, "file": r.random() < 0.4,
                "ps": [self.param(m) for _ in range(r.randint(5, 25) if self.big else r.choice([0, 1, 2, 3, 5]))]}

    def comp(self, name):
        r = self.r
        m = r.choice(["alpha", "beta", "gamma"])
        src, uri = r.choice([("cfg/%s.fmu" % m, m + ".fmu"), ("cfg/resources/%s.fmu" % m, "resources/%s.fmu" % m), ("cfg/resources/%s.fmu" % m, "./resources/x/../%s.fmu" % m),
                             ("fake:" + m, "fake:" + m), ("cfg/%s.fmu" % m, "file:///@ROOT@/cfg/%s.fmu" % m)])
        vs = self.vars(m)
        conns = [v for v in vs if r.random() < (0.99 if self.big else 0.9)]
        psets = [self.pset(m) for _ in range(r.randint(0, 9) if self.big else r.choice([0, 0, 1, 1, 2, 3]))]
        return {"name": name, "src": src, "uri": uri, "model": m, "look": "conf", "hint": dict(ABSENT) if r.random() < 0.5 else self.num(0, 10**6),
                "conns": [c["n"] for c in conns], "psets": psets, "inits": []}

    def desc(self):
        r = self.r
        D = {"valid": True, "models": self.models, "start": dict(ABSENT), "algo": dict(ABSENT), "sims": [], "links": [], "emds": []}
        if r.random() < 0.7:
            D["start"] = self.num(-2000000, 5000000)
        if r.random() < 0.6:
            D["algo"] = self.num(1, 10**6)
        names = ["A", "B", "C", "D d", "E.e", "\u00e6", "\u00f8", "f&g"]
        if self.big:
            names += ["comp %d" % i for i in range(40)] + ["x" * 300]
        r.shuffle(names)
        for _ in range(r.randint(9, 25) if self.big else r.choice([1, 1, 2, 2, 3, 4])):
            D["sims"].append(self.comp(names.pop()))
        used = set()
        for _ in range(r.randint(20, 50) if self.big else r.choice([0, 1, 2, 3, 5])):
            ty = r.choice(["real", "real", "real", "int", "bool", "str"])
            def ends(want):
                return [(s["name"], v["n"]) for s in D["sims"] for v in self.vars(s["model"]) if v["n"] in s["conns"] and v["ty"] == ty and want(v)]
            a, b = ends(lambda v: v["ca"] in ("out", "calc")), [e for e in ends(lambda v: v["ca"] == "in" and v["vb"] not in ("fixed", "constant")) if e not in used]
            if not a or not b:
                continue
            a, b = r.choice(a), r.choice(b)
            used.add(b)
            k = {"as": a[0], "an": a[1], "bs": b[0], "bn": b[1], "lin": [], "other": False, "numbers": True}
            if ty == "real" and r.random() < 0.5:
                k["lin"] = [self.lin(k)]
            D["links"].append(k)
        return D

    def lin(self, k):
        r = self.r
        l = {"f": "1", "o": "0"}
        for x, c in (("f", ["2", "-0.5", "1e3", "0", "0.1", "1"]), ("o", ["50", "-1", "0.25", "1e-3", "0"])):
            if r.random() < 0.7:
                l["t" + x] = r.choice(c)
                l[x] = "%.17g" % float(l["t" + x])
        return l


def mutate(r, D, g):
    k = r.choice(["name", "model", "conn", "conn", "lend", "lend", "lend", "ldup", "ltype", "lrev", "other", "linbad", "param", "param", "pfile", "hint", "start", "algo", "algo", "empty", "nolinktype"])
    s = r.choice(D["sims"]) if D["sims"] else None
    l = r.choice(D["links"]) if D["links"] else None
    if k == "name" and s:
        s["name"] = r.choice([r.choice(D["sims"])["name"], "Z", ""])
    elif k == "empty":
        D["sims"] = []
    elif k == "model" and s:
        s["model"], s["uri"] = "?", r.choice(["nosuch.fmu", "other:alpha", "http://x/alpha.fmu"])
    elif k == "conn" and l:
        # an end that is no longer declared
        for x in D["sims"]:
            if x["name"] == l["as"] and r.random() < 0.5:
                x["conns"] = [c for c in x["conns"] if c != l["an"]]
            elif x["name"] == l["bs"]:
                x["conns"] = [c for c in x["conns"] if c != l["bn"]]
    elif k == "lend" and l:
        x = r.choice("ab")
        if r.random() < 0.3:
            l[x + "s"] = r.choice(["nobody", ""])
        else:
            n = r.choice(["nothing", "l0", "k0", "p0", "f0", "d0", "y0", "u0", "u5", "n0", "n1", "n2", "k1", "c0", "Y0"])
            l[x + "n"] = n
            if r.random() < 0.7:
                for c in D["sims"]:
                    if c["name"] == l[x + "s"] and n not in c["conns"]:
                        c["conns"].append(n)
    elif k == "ldup" and l:
        n = copy.deepcopy(l)
        if r.random() < 0.5:
            n["lin"] = [] if n["lin"] else [g.lin(n)]
        D["links"].insert(r.randint(0, len(D["links"])), n)
    elif k == "ltype" and l:
        l["lin"] = [g.lin(l)]
        l["an"], l["bn"] = "n0", "n1"
        for c in D["sims"]:
            c["conns"] += [n for n in ("n0", "n1") if n not in c["conns"]]
    elif k == "lrev" and l:
        l["as"], l["an"], l["bs"], l["bn"] = l["bs"], l["bn"], l["as"], l["an"]
    elif k == "other" and l:
        l["other"] = True
        l["lin"] = []
    elif k == "linbad" and l:
        l["lin"] = [dict(g.lin(l), tf=r.choice(["abc", ""]), f="0")]
        l["numbers"] = False
    elif k == "param" and s:
        ty = r.choice(["real", "int", "bool", "other"])
        p = {"var": r.choice(["u0", "n1", "nothing"]), "ty": ty, "t": r.choice(BAD.get(ty, ["x"])), "ok": False, "v": ""}
        s["psets"].append({"name": "s9", "ok": True, "file": r.random() < 0.4, "ps": [p]})
    elif k == "pfile" and s:
        s["psets"].append({"name": "s9", "ok": False, "file": True, "ps": []})
    elif k == "hint" and s:
        s["hint"] = r.choice([{"given": True, "ok": False, "v": 0, "t": r.choice(BADNUM)}, {"given": True, "ok": True, "v": -1000, "t": "-0.001"}])
    elif k == "start":
        D["start"] = {"given": True, "ok": False, "v": 0, "t": r.choice(BADNUM)}
    elif k == "algo":
        D["algo"] = r.choice([{"given": True, "ok": False, "v": 0, "t": r.choice(BADNUM)}, {"given": True, "ok": True, "v": 0, "t": r.choice(["0", "1e-10"])},
                              {"given": True, "ok": True, "v": -1000, "t": "-0.001"}, {"given": True, "ok": False, "v": 0, "t": None}])
    elif k == "nolinktype" and s:
        s["untyped"] = r.choice(["", "ssc:Enumeration", "ssc:Binary", "ssc:Foo"])
    else:
        return mutate(r, D, g)


def text(r, D, files, broken=False):
    def pset(p):
        attrs = [("version", "1.0"), ("name", p["name"])]
        ps = []
        for x in p["ps"]:
            if x["ty"] == "other":
                ps.append(el("ssv:Parameter", [("name", x["var"])], [el(r.choice(["ssv:Enumeration", "ssv:Binary", "ssv:Foo"]), [("value", x["t"])])]))
            else:
                ps.append(el("ssv:Parameter", [("name", x["var"])], [el("ssv:" + TAG[x["ty"]], [("value", x["t"])])]))
        return attrs, [el("ssv:Parameters", [], ps)]
    comps = []
    for s in D["sims"]:
        kids = []
        conns = []
        by = {v["n"]: v for m in D["models"] if m["name"] == s["model"] for v in m["vars"]}
        for c in s["conns"]:
            v = by.get(c, V(c, "real", "out"))
            t = {"real": "ssc:Real", "int": "ssc:Integer", "bool": "ssc:Boolean", "str": "ssc:String", "enum": "ssc:Integer"}[v["ty"]]
            conns.append(el("ssd:Connector", [("name", c), ("kind", {"in": "input", "out": "output"}.get(v["ca"], "parameter"))], [el(t, [])]))
        if "untyped" in s:
            t = s["untyped"]
            conns.append(el("ssd:Connector", [("name", "untyped"), ("kind", "input")], [el(t, [("name", "x")])] if t else []))
        if conns or r.random() < 0.5:
            kids.append(el("ssd:Connectors", [], conns))
        pb = []
        for p in s["psets"]:
            a, k = pset(p)
            if p["file"]:
                fn = "%s%d.ssv" % ("par" if p["ok"] else "none", len(files))
                if r.random() < 0.3:
                    fn = "resources/" + fn
                if p["ok"]:
                    files.append((fn, '<?xml version="1.0" encoding="UTF-8"?>\n' + el("ssv:ParameterSet", NS[:3] + a, k)))
                pb.append(el("ssd:ParameterBinding", [("source", fn)]))
            else:
                pb.append(el("ssd:ParameterBinding", [], [el("ssd:ParameterValues", [], [el("ssv:ParameterSet", a, k)])]))
        if pb:
            kids.append(el("ssd:ParameterBindings", [], pb))
        an = []
        if r.random() < 0.2:
            an.append(el("ssc:Annotation", [("type", "com.example")], ["<x/>"]))
        if s["hint"]["given"]:
            an.append(el("ssc:Annotation", [("type", "com.opensimulationplatform")], [el("osp:StepSizeHint", [("value", s["hint"]["t"])])]))
        if an:
            kids.append(el("ssd:Annotations", [], an))
        comps.append(el("ssd:Component", [("name", s["name"]), ("source", s["uri"])], kids))
    sysk = [el("ssd:Elements", [], comps)]
    links = []
    for k in D["links"]:
        kids = []
        for l in k["lin"]:
            kids.append(el("ssc:LinearTransformation", [(n, l[t]) for n, t in (("factor", "tf"), ("offset", "to")) if t in l]))
        if k["other"]:
            kids.append(r.choice(['<ssc:BooleanMappingTransformation><ssc:MapEntry source="true" target="false"/></ssc:BooleanMappingTransformation>',
                                  '<ssc:IntegerMappingTransformation><ssc:MapEntry source="1" target="2"/></ssc:IntegerMappingTransformation>']))
        if r.random() < 0.1:
            kids.append('<ssd:ConnectionGeometry pointsX="1" pointsY="2"/>')
        links.append(el("ssd:Connection", [("startElement", k["as"]), ("startConnector", k["an"]), ("endElement", k["bs"]), ("endConnector", k["bn"])], kids))
    if links or r.random() < 0.3:
        sysk.append(el("ssd:Connections", [], links))
    p = [el("ssd:System", [("name", "sys"), ("description", "d")], sysk)]
    if D["start"]["given"] or D["algo"]["given"] or r.random() < 0.3:
        a = [("startTime", D["start"]["t"])] if D["start"]["given"] else []
        if r.random() < 0.3:
            a.append(("stopTime", "5"))
        k = []
        if r.random() < 0.2:
            k.append(el("ssc:Annotation", [("type", "com.example")], ["<y/>"]))
        if D["algo"]["given"]:
            t = D["algo"]["t"]
            alg = el("osp:UnknownAlgorithm", []) if t is None else el("osp:FixedStepAlgorithm", [("baseStepSize", t)] + ([("numWorkerThreads", "2")] if r.random() < 0.3 else []))
            k.append(el("ssc:Annotation", [("type", "com.opensimulationplatform")], [el("osp:Algorithm", [], [alg])]))
        p.append(el("ssd:DefaultExperiment", a, [el("ssd:Annotations", [], k)] if k else []))
    x = '<?xml version="1.0" encoding="UTF-8"?>\n' + el("ssd:SystemStructureDescription", NS + [("name", "n"), ("version", "1.0")], p) + "\n"
    if broken:
        b = r.choice([lambda: x[:r.randint(40, len(x) - 30)], lambda: "", lambda: x.replace("ssd:Elements", "ssd:Elementen"), lambda: x.replace("ssd:System ", "ssd:Sys ").replace("/ssd:System>", "/ssd:Sys>"),
                      lambda: x.replace("<ssd:Component ", '<ssd:Component source="a.fmu"/><ssd:Component ', 1) if "<ssd:Component " in x else "", lambda: x.replace(' version="1.0"', "", 3) if False else "<a/>"])
        x = b()
    return x


def strip(D):
    D = copy.deepcopy(D)
    for k in ("start", "algo"):
        D[k].pop("t", None)
    for s in D["sims"]:
        s["hint"].pop("t", None)
        s.pop("uri")
        s.pop("untyped", None)
        s["name"], s["src"] = nm(s["name"]), nm(s["src"])
        s["conns"] = [nm(c) for c in s["conns"]]
        for p in s["psets"]:
            p.pop("file")
            p["name"] = nm(p["name"])
            for x in p["ps"]:
                x.pop("t")
                x["var"], x["v"] = nm(x["var"]), nm(x["v"])
    for m in D["models"]:
        for v in m["vars"]:
            v["n"] = nm(v["n"])
    for l in D["links"]:
        for x in ("as", "an", "bs", "bn"):
            l[x] = nm(l[x])
        for y in l["lin"]:
            y.pop("tf", None)
            y.pop("to", None)
    return D


def one(r, g):
    D = g.desc()
    for _ in range(r.choice([0, 0, 0, 1]) if g.big else r.choice([0, 0, 0, 1, 1, 1, 2])):
        mutate(r, D, g)
    if any("untyped" in s for s in D["sims"]):
        D["valid"] = False
    return D


def rnd(seed, n, big=False):
    out = []
    for i in range(n):
        r = random.Random("%s-ssp-%s%d" % (seed, "big" if big else "", i))
        g = Gen(r, big)
        ds, files = [], []
        names = ["SystemStructure"] + (["Other", "SystemStructure2"][:r.choice([1, 2])] if r.random() < 0.3 else [])
        lines = []
        for n in names:
            D = one(r, g)
            broken = r.random() < 0.06
            if broken:
                D["valid"] = False
            t = text(r, D, files, broken)
            files.append((n + ".ssd", t))
            ds.append(D)
        for m in g.models:
            lines.append("model %s %s" % (m["name"], ",".join("%s:%s:%s:%s" % (hx(v["n"]), v["ty"], v["ca"], v["vb"]) for v in m["vars"])))
        archive = r.random() < 0.35 and not any("@ROOT@" in t for _, t in files)
        files += [("resources/alpha.fmu", "a"), ("resources/x/y", "b")]
        for fn, t in files:
            lines.append("file cfg/%s %s" % (fn, hx(t).replace("2f" + "@ROOT@".encode().hex(), "@ROOT@".encode().hex())))
        if archive:
            lines.append("zip a.ssp cfg")
            for D in ds:
                for s in D["sims"]:
                    s["src"] = s["src"].replace("cfg/resources", "archive/resources").replace("cfg/", "archive/")
        for _ in range(r.choice([1, 2, 3])):
            d = r.randrange(len(ds))
            ssd = names[d] if d or r.random() < 0.2 else "."
            how = r.choice(["abs", "rel"])
            if archive:
                lines.append("load %d a.ssp %s %s" % (d + 1, how, ssd))
            elif r.random() < 0.25:
                # a file is taken as it is
                lines.append("load %d cfg/%s.ssd %s %s" % (d + 1, names[d], how, r.choice([".", "Other"])))
            else:
                lines.append("load %d cfg %s %s" % (d + 1, how, ssd))
        out.append(("ssp%s%d" % ("big" if big else "", i), {"ds": [strip(D) for D in ds]}, lines))
    return out
