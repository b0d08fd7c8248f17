"""Scenarios for model_uri_resolver (spec Resolver, harness resolver)."""
import itertools, random
from urigen import comps, text, hx


def rules(r):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        sc = r.choice(["", "", "http", "file", "x", "proxyfmu"])
        end = r.choice(["", "", "", "a", ".fmu", "/", "b.fmu"])
        out.append("%s:%s:%s" % (hx(sc), hx(end), r.choice(["take", "take", "pass", "fail"])))
    return ",".join(out) or "."


def ref(r):
    x = r.random()
    if x < 0.35:
        p = r.choice(["a.fmu", "b.fmu", "/d/b.fmu", "sub/a.fmu", "../a.fmu", ".fmu", "d/.fmu", "a.fmu/", "bad.fmu", "d/xbad.fmu", "a.FMU", "a", "a%2efmu",
                      "a%20b.fmu", "..fmu", "a..fmu", "%2e%2e/a.fmu", "x.y/z", "./a.fmu?q#f", "a.fmu#f"])
        if r.random() < 0.6:
            return p
        return "file://%s/%s" % (r.choice(["", "", "localhost", "host", "LOCALHOST"]), p.lstrip("/"))
    c = list(comps(r, absolute=r.random() < 0.5))
    if c[0] == "file" and c[1] is None:
        c[1] = ""
        c[2] = "/" + c[2].lstrip("/")
    return text(c)


def base(r):
    x = r.random()
    if x < 0.4:
        return r.choice(["file:///d/e/s.xml", "file://localhost/d/", "file:///", "file://host/x/y"])
    if x < 0.5:
        return r.choice(["d/e", "", "//h/x", "/p/q"])
    return r.choice(["http://h/b/c", "x://h", "proxyfmu://h:1/p?file=q", "x:y/z"])


def pairs():
    """Every pair of behaviours of two sub-resolvers, for absolute and relative references."""
    out = []
    acts = [("plain", ".")] + [("plain", "::%s" % a) for a in ("take", "pass", "fail")] + [("raw", "::%s" % a) for a in ("take", "pass", "fail")] + [("file", ".")]
    acts = [(k, r.replace("::", ".:.:")) for k, r in acts]
    for n, (a, b) in enumerate(itertools.product(acts, repeat=2)):
        lines = ["sub 1 %s %s" % a, "sub 2 %s %s" % b]
        for x in ("x:/a", "rel", "file:///d/a.fmu", "file:///d/bad.fmu", "file:///d/a.txt"):
            lines.append("look - %s" % hx(x))
            for bs in ("http://h/b", "file:///k/l", "rel/x"):
                lines.append("look %s %s" % (hx(bs), hx(x)))
        lines += ["move", "look - %s" % hx("x:/a"), "new", "look - %s" % hx("x:/a"), "look - %s" % hx("a")]
        out.append(("pair%d" % n, {}, lines))
    return out


def rnd(seed, n):
    out = []
    for i in range(n):
        r = random.Random("%s-res-%d" % (seed, i))
        lines = []
        nid = 0
        for _ in range(r.randint(4, 20)):
            x = r.random()
            if x < 0.3:
                nid += 1
                k = r.choice(["plain", "plain", "raw", "file"])
                lines.append("sub %d %s %s" % (nid, k, "." if k == "file" else rules(r)))
            elif x < 0.35 and nid:
                lines.append("again %d" % r.randint(1, nid))
            elif x < 0.4:
                lines.append("move")
            elif x < 0.43:
                lines.append("new")
            elif x < 0.47:
                nid += 1
                lines.append("default %d" % nid)
            else:
                for _ in range(3):
                    lines.append("look %s %s" % ("-" if r.random() < 0.3 else hx(base(r)), hx(ref(r))))
        out.append(("res%d" % i, {}, lines))
    return out
