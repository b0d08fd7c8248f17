"""Scenarios for override_manipulator (spec Override) and scenario_manager (spec Scenario)."""
import json, random


def world(r, causal=(1, 2, 3, 4, 5), tys=(1, 1, 2, 3, 4), big=False):
    sims, lines = [], []
    for i in range(r.randint(4, 8) if big else r.randint(1, 3)):
        used, vs = set(), []
        for k in range(r.randint(10, 40) if big else r.randint(1, 5)):
            ty, ref = r.choice(tys), r.choice([0, 0, 1, 2, 3, 7, 50] + list(range(60, 100)) * big)
            if (ty, ref) not in used:
                used.add((ty, ref))
                vs.append({"name": "var%d" % k, "ty": ty, "ca": r.choice(causal), "ref": ref})
        sims.append({"name": "sim%d" % i, "vars": vs})
        lines.append("sim sim%d" % i)
        lines += ["var %s %d %d %d" % (v["name"], v["ty"], v["ca"], v["ref"]) for v in vs]
    return sims, lines


def value(r, ty):
    if ty == 1 and r.random() < 0.5:
        return 1000 + r.randint(1, 500)    # not a whole number
    return r.randint(0, 1) if ty == 3 else r.randint(-20 if ty < 3 else 0, 500)


def content(x):
    """as in harness/vh.hpp"""
    if x == 0:
        return ""
    return "s%d" % x + ("q" * (20 + x % 7) if x % 5 == 3 else " " + "w" * 500 + "x" if x % 5 == 4 else "")


def overrides(seed, n, big=False):
    out = []
    for k in range(n):
        r = random.Random("%s-ovr-%s%d" % (seed, "big" if big else "", k))
        sims, lines = world(r, causal=(1, 1, 2, 2, 3, 4, 5), big=big)
        cfg = {"sims": [[{"ca": v["ca"], "ty": v["ty"]} for v in s["vars"]] for s in sims]}
        nth = 0 if big else r.choice([0, 0, 1, 1, 2, 3])
        lines = ["override"] + ["slow %d" % r.choice([0, 0, 50, 200])] + lines

        focus = [(i + 1, v + 1) for i, s in enumerate(sims) for v in range(len(s["vars"]))]
        focus = r.sample(focus, min(len(focus), 200 if big else r.choice([1, 2, 3, 15])))

        def req(th):
            x = r.random()
            if x < 0.9:
                i, v = r.choice(focus)
                d = sims[i - 1]["vars"][v - 1]
                ty, ref = d["ty"], d["ref"]
            elif x < 0.95:
                i, v, ty, ref = r.randint(1, len(sims)), 99, r.choice([1, 2, 3, 4]), 9999
            else:
                i, v, ty, ref = 77, 1, 1, 0
            kind = 0 if r.random() < 0.3 else 1
            lines.append("%d r %d %d %d %d %d %d" % (th, i, v, ty, ref, kind, value(r, ty)))
        for _ in range(r.randint(150, 250) if big else r.randint(4, 14)):
            x = r.random()
            if big and x < 0.9:
                req(0)
            elif x < 0.55 or nth:
                if nth == 0 or r.random() < 0.15:
                    req(0)
                else:
                    lines.append("0 step")
                    if r.random() < 0.6:
                        lines.append("0 y %d" % r.choice([20, 100, 400]))
            elif x < 0.9:
                lines.append("0 step")
            else:
                lines.append("0 map")
        for th in range(1, nth + 1):
            for _ in range(r.randint(2, 10 if nth < 3 else 5)):
                req(th)
                if r.random() < 0.4:
                    lines.append("%d y %d" % (th, r.choice([20, 100, 300])))
        out.append(("ovr%s%d" % ("big" if big else "", k), cfg, lines))
    return out


def scenarios(seed, n, big=False):
    out = []
    for k in range(n):
        r = random.Random("%s-scn-%s%d" % (seed, "big" if big else "", k))
        sims, lines = world(r, causal=(1, 2, 3, 4), big=big)
        unit = r.choice([1000000, 1, 10000000])
        cfg = {"sims": sims, "lists": [], "docs": []}
        epoch = r.choice([0, 0, 1700000000123456789, 4000000000000000001, -4000000000000000003])
        lines = ["scenario", "unit %d %d" % (unit, epoch)] + lines
        targets = [(i + 1, v + 1) for i, s in enumerate(sims) for v in range(len(s["vars"]))]
        focus = r.sample(targets, min(len(targets), 100 if big else r.choice([1, 1, 2, 4])))
        T = r.choice([3, 6, 20])
        for _ in range(r.randint(1, 3)):
            evs = []
            end = r.choice([-1, -1, 0, 1, T, T + 5])
            lines.append("list %d" % end)
            for _ in range(r.randint(60, 150) if big else r.choice([0, 1, 2, 3, 5, 9, 25])):
                i, v = r.choice(focus)
                ty = sims[i - 1]["vars"][v - 1]["ty"]
                kind = r.choice([0, 1, 1, 1] if ty > 2 else [0, 1, 1, 1, 2, 2])
                x = value(r, ty) if kind == 1 else r.randint(1, 9)
                t = r.randint(0, T)
                evs.append({"t": t, "i": i, "v": v, "m": [kind, x if kind else 0]})
                lines.append("event %d %d %d %d %d" % (t, i, v, kind, x))
            cfg["lists"].append({"ev": evs, "end": end})
        play(r, lines, len(cfg["lists"]), 0, T, sims, targets)
        out.append(("scn%s%d" % ("big" if big else "", k), cfg, lines))
    return out


def play(r, lines, nl, nd, T, sims, targets):
    now = r.choice([0, 0, 13])
    d = r.choice([1, 1, 2, 3])
    for rnd in range(r.randint(1, 4)):
        if nd and (not nl or r.random() < 0.9):
            lines.append("file %d %d" % (r.randint(1, nd), now))
        else:
            lines.append("load %d %d" % (r.randint(1, nl), now))
        m = r.choice([0, 1, 2, T // d + 2, T // d + 8])
        for _ in range(m):
            if r.random() < 0.1:
                i, v = r.choice(targets)
                ty = sims[i - 1]["vars"][v - 1]["ty"]
                lines.append("other %d %d %d %d" % (i, v, r.choice([0, 1]), 0) if r.random() < 0.5 else "other %d %d 1 %d" % (i, v, value(r, ty)))
            if r.random() < 0.04:
                lines.append("abort")
            now += d if r.random() < 0.9 else r.randint(0, 7)
            lines.append("step %d" % now)
        if r.random() < 0.3:
            lines.append("abort")


def render(r, d):
    """An abstract document as text, in YAML or JSON."""
    js = r.random() < 0.5
    ev = []
    for e in d["ev"]:
        o = []
        if e["ht"]:
            o.append(("time", "%r" % (e["t"] / 2) if e["t"] % 2 or r.random() < 0.5 else "%d" % (e["t"] // 2)))
        for key, name in (("m", "model"), ("v", "variable"), ("a", "action")):
            if e[key]:
                o.append((name, json.dumps(e[key]) if js or r.random() < 0.3 else e[key]))
        if e["vk"] != "none":
            o.append(("value", {"int": str(e["x"]), "frac": "%d.5" % e["x"], "bool": "true" if e["x"] else "false",
                                "real": "%.17g" % ((e["x"] - 1000) * (1 + 2.0**-25)),
                                "str": json.dumps(content(e["x"])) if js or not e["x"] else content(e["x"])}[e["vk"]]))
        r.shuffle(o)
        ev.append(o)
    de = [(n, json.dumps(d[k]) if js else d[k]) for k, n in (("dm", "model"), ("dv", "variable"), ("da", "action")) if d[k]]
    parts = []
    if js:
        if de:
            parts.append('"defaults": {%s}' % ", ".join('"%s": %s' % x for x in de))
        if d["ev"] or r.random() < 0.7:
            parts.append('"events": [%s]' % ",\n ".join("{%s}" % ", ".join('"%s": %s' % x for x in o) for o in ev))
        if d["end"] >= 0:
            parts.append('"end": %s' % (d["end"] / 2))
        r.shuffle(parts)
        text = "{\n%s\n}\n" % ",\n".join(parts)
    else:
        if de:
            parts.append("defaults:\n" + "".join("  %s: %s\n" % x for x in de))
        if ev:
            parts.append("events:\n" + "".join("  - " + "    ".join("%s: %s\n" % x for x in o) if o else "  - {}\n" for o in ev))
        if d["end"] >= 0:
            parts.append("end: %s\n" % (d["end"] / 2))
        r.shuffle(parts)
        text = "".join(parts) or "{}\n"
    if d["bad"]:
        text = r.choice([text + '\n  - [broken: {', '{"events": [', "events: [}\n", '"unterminated'])
    return ("json" if js else "yml"), text


def files(seed, n, big=False):
    out = []
    for k in range(n):
        r = random.Random("%s-file-%s%d" % (seed, "big" if big else "", k))
        sims, decl = world(r, causal=(1, 2, 3, 4) if r.random() < 0.75 else (1, 2, 3, 4, 5), tys=(1, 1, 2, 3, 4) if r.random() < 0.85 else (1, 1, 2, 3, 4, 5), big=big)
        cfg = {"sims": sims, "lists": [], "docs": []}
        lines = ["scenario", "unit 500000000 %d" % r.choice([0, 0, 1700000000123456789])] + decl
        targets = [(i + 1, v + 1) for i, s in enumerate(sims) for v in range(len(s["vars"]))]
        focus = r.sample(targets, min(len(targets), 100 if big else r.choice([1, 2, 4])))
        T = r.choice([3, 8])
        for _ in range(r.randint(1, 4)):
            defect = r.random() < 0.45
            d = {"dm": "", "dv": "", "da": "", "bad": defect and r.random() < 0.1, "end": r.choice([-1, -1, 0, 3, T + 3]), "ev": []}
            if r.random() < 0.4:
                d["dm"] = sims[focus[0][0] - 1]["name"]
            if r.random() < 0.3:
                d["dv"] = sims[focus[0][0] - 1]["vars"][focus[0][1] - 1]["name"]
            if r.random() < 0.4:
                d["da"] = r.choice(["override", "override", "reset", "bias"])
            ne = r.randint(30, 80) if big else r.choice([0, 1, 2, 4, 8])
            where = r.randrange(ne) if ne and defect else -1
            for m in range(ne):
                i, v = r.choice(focus)
                s, q = sims[i - 1], sims[i - 1]["vars"][v - 1]
                acts = ["override", "override", "reset"] + (["bias"] if q["ty"] < 3 else [])
                a = r.choice(acts)
                if d["da"] and r.random() < 0.5 and d["da"] in acts:
                    a = d["da"]
                e = {"ht": True, "t": r.randint(0, T), "m": s["name"], "v": q["name"], "a": a, "vk": "none", "x": 0}
                if a != "reset" or r.random() < 0.3:
                    e["vk"] = {1: "int", 2: "int", 3: "bool", 4: "str", 5: "int"}[q["ty"]]
                    e["x"] = value(r, q["ty"])
                    if q["ty"] == 1 and e["x"] >= 1000:
                        e["vk"] = "real"
                    if a == "bias" and e["x"] == 0:
                        e["x"] = 1
                if e["m"] == d["dm"] and r.random() < 0.6:
                    e["m"] = ""
                if e["v"] == d["dv"] and r.random() < 0.6:
                    e["v"] = ""
                if e["a"] == d["da"] and r.random() < 0.6:
                    e["a"] = ""
                if m == where:
                    x = r.choice(["t", "m", "v", "a", "novar", "nosim", "noact", "kind", "noval", "bias"])
                    if x == "t":
                        e["ht"] = False
                    elif x in ("m", "v", "a"):
                        e[x] = ""
                    elif x == "novar":
                        e["v"] = r.choice(["nosuchvar", "var", "Var0", "var00"])
                    elif x == "nosim":
                        e["m"] = r.choice(["nosuchsim", "sim", "sim00"])
                    elif x == "noact":
                        e["a"], e["vk"] = r.choice(["overrule", "Override", "none"]), {1: "int", 2: "int", 3: "bool", 4: "str", 5: "str"}[q["ty"]]
                    elif x == "kind" and q["ty"] in (1, 2, 3):
                        e["vk"] = "str"
                    elif x == "kind":
                        pass
                    elif x == "noval":
                        e["vk"] = "none"
                    elif x == "bias" and q["ty"] == 4:
                        e["a"], e["vk"] = "bias", "str"
                if q["ty"] == 3 and (e["a"] or d["da"]) == "bias":  # booleans have no documented bias
                    e["a"] = "override"
                if q["ty"] == 1 and e["vk"] == "frac":
                    e["vk"] = "int"
                if e["a"] == "" and d["da"] == "bias" and e["vk"] == "none":
                    e["a"] = "reset"
                d["ev"].append(e)
            # the target of an event may be another one through defaults: keep booleans without bias
            for e in d["ev"]:
                mn, vn, an = e["m"] or d["dm"], e["v"] or d["dv"], e["a"] or d["da"]
                for s in sims:
                    for q in s["vars"]:
                        if s["name"] == mn and q["name"] == vn:
                            if q["ty"] == 3 and an == "bias":
                                e["a"] = "override"
                            if q["ty"] == 4 and e["vk"] in ("int", "bool", "frac", "real"):
                                e["vk"] = "str"
                            if q["ty"] == 3 and e["vk"] in ("int", "real"):
                                e["vk"] = "str"
            ext, text = render(r, d)
            if d["bad"] and r.random() < 0.3:
                ext = "missing"
            cfg["docs"].append(d)
            lines.append("doc %s %s" % (ext, text.encode().hex()))
        play(r, lines, 0, len(cfg["docs"]), T, sims, targets)
        out.append(("file%s%d" % ("big" if big else "", k), cfg, lines))
    return out
