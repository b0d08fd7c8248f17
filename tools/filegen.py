"""Scenarios for file_observer (spec FileLog)."""
import random


def suite(seed, n, long=False):
    out = []
    for k in range(n):
        r = random.Random("%s-flog-%s%d" % (seed, "long" if long else "", k))
        sims, lines = [], ["stale"] if r.random() < 0.4 else []
        for i in range(r.randint(3, 9) if long else r.randint(1, 3)):
            used, vs = set(), []
            for m in range(r.randint(1, 40 if long else 6)):
                ty, ref = r.choice([1, 1, 2, 3, 4]), r.choice([0, 0, 1, 2, 3, 9] + list(range(10, 60)) * long)
                if (ty, ref) not in used:
                    used.add((ty, ref))
                    vs.append({"name": "v%d" % m, "ty": ty, "ca": r.choice([1, 2, 2, 3, 4, 5]), "ref": ref})
            name = ["a", "bb", "sim", "a1", "bbb", "simulator", "x", "y", "z" * 40][i]
            sims.append({"name": name, "vars": vs})
            lines.append("sim " + name)
            lines += ["var %s %d %d %d" % (v["name"], v["ty"], v["ca"], v["ref"]) for v in vs]
        mode = r.choice(["default", "config", "config"])
        conf = []
        xml = 0
        if mode == "config":
            xml = int(r.random() < 0.4)
            for s in sims:
                if r.random() < 0.8:
                    dec = r.choice([0, 1, 1, 2, 3, 5] + [10, 64] * long)
                    names = []
                    if r.random() < 0.75:
                        c = [v["name"] for v in s["vars"]]
                        r.shuffle(c)
                        names = c[:r.randint(1, len(c))]
                        if r.random() < 0.05:
                            names.append("nosuch")
                    conf.append({"name": s["name"], "dec": dec or 1, "vars": names})
                    lines.append("conf %s %d %s" % (s["name"], dec, " ".join(names)))
            if not conf:
                conf.append({"name": "other", "dec": 1, "vars": []})
                lines.append("conf other 1")
            r.shuffle(conf)
        stamped = 1 if mode == "default" or xml else r.choice([0, 1])
        cfg = {"mode": mode, "stamped": bool(stamped), "sims": sims, "conf": conf}
        lines.append("make %d %d %d" % (stamped, xml, r.choice([-1, -1, 0, 2, 3])))
        present = [i for i in range(1, len(sims) + 1) if r.random() < 0.9]
        lines += ["add %d" % i for i in present]

        def value(ty):
            return r.randint(0, 1) if ty == 3 else r.choice([r.randint(0, 99999), r.randint(0 if ty == 4 else -999, 999)])

        def change():
            for i in range(1, len(sims) + 1):
                for v in range(1, len(sims[i - 1]["vars"]) + 1):
                    if r.random() < 0.5:
                        lines.append("set %d %d %d" % (i, v, value(sims[i - 1]["vars"][v - 1]["ty"])))

        def rec():
            lines.append(r.choice(["start", "stop", "rec"]))
        if r.random() < 0.3:
            lines.append("stop")
        change()
        t = r.choice([0, 0, 7])
        lines.append("init 0 %d" % t)
        simdec = [r.choice([1, 1, 2, 3]) for _ in sims]
        for step in range(1, r.randint(150, 300) if long else r.randint(2, 14)):
            if r.random() < (0.05 if long else 0.3):
                rec()
            change()
            t += r.choice([1, 1, 2]) if k % 3 == 0 else 1
            for i in present:
                if step % simdec[i - 1] == 0:
                    lines.append("step %d %d %d" % (i, step, t))
            if r.random() < (0.004 if long else 0.04) and len(present) > 1:
                i = r.choice(present)
                present.remove(i)
                lines.append("rm %d" % i)
        if r.random() < 0.4:
            rec()
        out.append(("flog%s%d" % ("long" if long else "", k), cfg, lines))
    return out
