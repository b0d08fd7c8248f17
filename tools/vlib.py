"""Shared machinery of the checks: build from /repo's working tree, run TLC,
run harnesses, validate traces, report."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replays")
JAR = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------
# Building
LIBS = ["-lboost_log", "-lboost_thread", "-lboost_filesystem", "-lboost_date_time",
        "-lboost_chrono", "-lboost_regex", "-lboost_atomic", "-lyaml-cpp", "-lxerces-c", "-lzip",
        "-lpthread", "-ldl"]
# What each library-side group of sources needs.
GROUPS = {
    "base": ["error.cpp", "exception.cpp", "log/logger.cpp", "model_description.cpp"],
}


def tree_hash():
    h = hashlib.sha256()
    for top in ("src", "include", "data", "version.txt"):
        p = os.path.join(REPO, top)
        files = []
        if os.path.isfile(p):
            files = [p]
        for d, _, fs in os.walk(p):
            files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(os.path.relpath(f, REPO).encode())
            h.update(open(f, "rb").read())
    for d, _, fs in os.walk(HARN):
        for f in sorted(fs):
            h.update(f.encode())
            h.update(open(os.path.join(d, f), "rb").read())
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:16]


def build(target, sources, repo_sources, flags=()):
    """Compile harness `sources` and library `repo_sources` (relative to
    /repo/src/cosim) into one program; returns its path."""
    th = tree_hash()
    root = os.path.join(BUILD, th)
    os.makedirs(root, exist_ok=True)
    if os.path.isdir(BUILD):
        old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != th),
                     key=lambda p: os.path.getmtime(p))
        for p in old[:-1]:
            shutil.rmtree(p, ignore_errors=True)
    fl = ["-std=c++17", "-O1", "-g0", "-DBOOST_ALL_DYN_LINK=1", "-w", *flags]
    tag = hashlib.sha256(" ".join(fl).encode()).hexdigest()[:6]
    gen = generated(root)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + gen, "-I" + HARN]
    jobs, objs = [], []
    for s in sources:
        jobs.append((os.path.join(HARN, s), os.path.join(root, "h_%s_%s.o" % (tag, s.replace("/", "_")))))
    for s in repo_sources:
        src = os.path.join(gen, s[4:]) if s.startswith("gen:") else os.path.join(REPO, "src/cosim", s)
        if not os.path.exists(src):
            raise CheckError("source file %s is missing" % src)
        jobs.append((src, os.path.join(root, "r_%s_%s.o" % (tag, s.replace("/", "_").replace(":", "_")))))
    objs = [o for _, o in jobs]

    def cc(j):
        src, o = j
        if os.path.exists(o):
            return None
        tmp = o + ".%d.tmp" % os.getpid()
        p = subprocess.run(["g++", *fl, *inc, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return "%s:\n%s" % (src, p.stdout.decode(errors="replace")[-3000:])
        os.rename(tmp, o)
        return None

    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(cc, jobs) if e]
    if errs:
        raise CheckError("build failed:\n" + "\n".join(errs))
    exe = os.path.join(root, target)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        p = subprocess.run(["g++", *fl, *objs, "-o", tmp, "-Wl,--unresolved-symbols=ignore-all", *LIBS],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError("link failed:\n" + p.stdout.decode(errors="replace")[-3000:])
        os.rename(tmp, exe)
    return exe


def generated(root):
    """Files the project's build generates from templates and schemas."""
    g = os.path.join(root, "gen")
    if os.path.isdir(g):
        return g
    t = g + ".%d" % os.getpid()
    os.makedirs(t, exist_ok=True)
    xsd = os.path.join(REPO, "data/xsd/OspSystemStructure.xsd")
    if os.path.exists(xsd):
        txt = open(xsd, encoding="utf-8").read()
        open(os.path.join(t, "osp_system_structure_schema.hpp"), "w").write(
            'const char* osp_xsd=R"(%s)";' % txt)
    try:
        os.rename(t, g)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    return g


# --------------------------------------------------------------------------
# TLC
class TLC:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found" in out
        self.deadlock = "Error: Deadlock reached" in out
        self.violated = re.findall(r"Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated", out)

    def actions(self):
        """operator name -> number of times its last conjunct held, from -coverage output"""
        total, cur = {}, {}

        def flush():
            for k, (_, v) in cur.items():
                total[k] = total.get(k, 0) + v
            cur.clear()
        for line in self.out.split("\n"):
            if line.startswith("<"):
                flush()
            m = re.match(r"  (\|*)line (\d+), col \d+ to line \d+, col \d+ of module (\w+): (\d+)", line)
            if m:
                d, depth = definition_at(m.group(3), int(m.group(2))), len(m.group(1))
                if d and depth <= cur.get(d, (99, 0))[0]:
                    cur[d] = (depth, int(m.group(4)))
        flush()
        return total


_defs = {}


def definition_at(module, line):
    if module not in _defs:
        r = []
        p = os.path.join(SPEC, module + ".tla")
        if os.path.exists(p):
            for n, t in enumerate(open(p), 1):
                m = re.match(r"(\w+)(\([^=]*\))?\s*==", t)
                if m:
                    r.append((n, m.group(1)))
        _defs[module] = r
    name = None
    for n, d in _defs[module]:
        if n <= line:
            name = d
    return name


def tlc(module, cfg, env=None, workers=1, timeout=600, args=(), heap="3g", props=()):
    """cfg: text of the configuration."""
    work = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    c = os.path.join(work, module + ".cfg")
    open(c, "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", *props,
           "-DTLA-Library=" + SPEC, "-cp", JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(work, "states"),
           "-noGenerateSpecTE", "-config", c, *args, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    out = p.stdout.decode(errors="replace")
    shutil.rmtree(work, ignore_errors=True)
    return TLC(out, p.returncode, time.time() - t0)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_")
    return _scratch


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def model_check(module, cfg, name, need_actions=(), coverage=True, **kw):
    """Exhaustive exploration of the model alone.  Anything but success is an
    error of the check, not of the code."""
    r = tlc(module, cfg, args=(*(("-coverage", "1") if coverage else ()), *kw.pop("args", ())), workers=kw.pop("workers", 4), **kw)
    if not r.ok:
        raise CheckError("model %s (%s) failed:\n%s" % (module, name, r.out.split("The coverage statistics")[0][-5000:]))
    # (TLC's cost model does not cope with deeply recursive operators)
    acts = r.actions() if coverage else {}
    for a in need_actions:
        if acts.get(a, 0) == 0:
            raise CheckError("model %s (%s): action %s was never taken" % (module, name, a))
    log("model %-28s %8d states %9d transitions %5.1fs" % (name, r.states, r.transitions, r.wall))
    return r


def prove(rep, name):
    """The TLAPS proof spec/proofs/<name>Proof.tla, which has no bounds.  It is about the specification alone, so
    a prover that gives no answer in time says nothing about the code: the quick tier only records that."""
    d = tempfile.mkdtemp(prefix="proof_", dir=scratch())
    t0 = time.time()
    try:
        p = subprocess.run(["tlapm", "--threads", "4", "--stretch", "1" if TIER == "quick" else "5", "-I", SPEC, "--cache-dir", d, os.path.join(SPEC, "proofs", name + "Proof.tla")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120 if TIER == "quick" else 900, cwd=d)
        m = re.search(r"All (\d+) obligations? proved", p.stdout.decode(errors="replace"))
        n = int(m.group(1)) if m and p.returncode == 0 else 0
    except (OSError, subprocess.TimeoutExpired):
        n = 0
    shutil.rmtree(d, ignore_errors=True)
    if not n and TIER == "thorough":
        raise CheckError("the proof %s was not confirmed" % name)
    rep.cov.setdefault("proofs", {})[name + "Proof"] = {"confirmed": n > 0, "obligations": n}
    log("proof %-28s %s (%.1fs)" % (name, "%8d obligations proved" % n if n else "not confirmed in time", time.time() - t0))


# --------------------------------------------------------------------------
# Harness runs
def run_harness(exe, scenarios, jobs=6, timeout=30, env=None, total=600):
    """scenarios: list of (id, cfg dict, [lines]).  Returns list of trace dicts."""
    d = tempfile.mkdtemp(prefix="run_", dir=scratch())
    sf, of = os.path.join(d, "s.txt"), os.path.join(d, "t.ndjson")
    with open(sf, "w") as f:
        for sid, cfg, lines in scenarios:
            f.write("scenario %s\ncfg %s\n" % (sid, json.dumps(cfg, separators=(",", ":"))))
            f.write("\n".join(lines) + "\nend\n")
    e = dict(os.environ)
    e["VH_SCRATCH"] = d
    e.update(env or {})
    try:
        p = subprocess.run([exe, sf, of, str(jobs), str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=total, env=e, cwd=d)
    except subprocess.TimeoutExpired:
        raise CheckError("harness timed out")
    if p.returncode:
        raise CheckError("harness failed (%d): %s" % (p.returncode, p.stdout.decode(errors="replace")[-2000:]))
    out = [l for l in open(of, encoding="utf-8", errors="replace").read().split("\n") if l]
    shutil.rmtree(d, ignore_errors=True)
    if len(out) != len(scenarios):
        raise CheckError("harness returned %d traces for %d scenarios" % (len(out), len(scenarios)))
    return [json.loads(l) for l in out]


class Validation:
    def __init__(self):
        self.accepted = 0
        self.states = 0
        self.transitions = 0
        self.lines = 0
        self.rejected = []  # (index, matched prefix length, tlc excerpt)


def _prefix(out):
    """Furthest line matched, from the counterexample TLC prints."""
    ls = re.findall(r"^/\\ l = (\d+)$", out, re.M)
    return max([int(x) for x in ls] or [1]) - 1


def validate_batch(module, cfg, traces, branching=False, timeout=600, heap="3g", extra_env=None):
    """Returns (TLC, index of rejected trace or None, prefix)"""
    d = tempfile.mkdtemp(prefix="val_", dir=scratch())
    f = os.path.join(d, "traces.ndjson")
    with open(f, "w") as o:
        for t in traces:
            o.write(json.dumps(t, separators=(",", ":")) + "\n")
    env = {"TRACES": f}
    env.update(extra_env or {})
    r = tlc(module, cfg, env=env, workers=1, timeout=timeout, heap=heap)
    shutil.rmtree(d, ignore_errors=True)
    return r


def validate(module, cfg, traces, chunk=40, branching=False, timeout=600, par=4, max_reject=3, heap="2g"):
    """Check every trace against the trace specification `module`.
    Deterministic trace specs (branching=False): a rejected trace is a
    deadlock.  Branching ones print the set of fully matched traces."""
    v = Validation()
    v.lines = sum(len(t["ev"]) for t in traces)
    chunks = [list(range(k, min(k + chunk, len(traces)))) for k in range(0, len(traces), chunk)]

    def one(idx):
        rej, st, tr, acc = [], 0, 0, 0
        todo = list(idx)
        while todo:
            r = validate_batch(module, cfg, [traces[k] for k in todo], timeout=timeout, heap=heap)
            st += r.states
            tr += r.transitions
            if branching:
                if not r.ok and "TRACE_RESULT" not in r.out:
                    raise CheckError("trace validation %s failed to run:\n%s" % (module, r.out[-5000:]))
                m = re.search(r'TRACE_RESULT (.*)$', r.out, re.M)
                if not m:
                    raise CheckError("trace validation %s gave no result:\n%s" % (module, r.out[-5000:]))
                reached = parse_tuple(m.group(1))
                for n, k in enumerate(todo):
                    if reached[n] == len(traces[k]["ev"]):
                        acc += 1
                    else:
                        rej.append((k, reached[n], ""))
                break
            if r.ok:
                acc += len(todo)
                break
            m = re.findall(r"^/\\ tid = (\d+)$", r.out, re.M)
            if not (r.deadlock or r.violated) or not m:
                raise CheckError("trace validation %s failed to run:\n%s" % (module, r.out[-5000:]))
            n = int(m[-1]) - 1
            rej.append((todo[n], _prefix(r.out), (r.violated and str(r.violated[0]) or "")))
            del todo[n]
            if len(rej) >= max_reject:
                break
        return rej, st, tr, acc

    with ThreadPoolExecutor(par) as ex:
        for rej, st, tr, acc in ex.map(one, chunks):
            v.rejected += rej
            v.states += st
            v.transitions += tr
            v.accepted += acc
    v.rejected.sort()
    return v


def parse_tuple(s):
    return [int(x) for x in re.findall(r"-?\d+", s)]


# --------------------------------------------------------------------------
# Reporting
class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "trace_lines": 0, "models": {}, "suites": {}}
        self.violations = []
        self.assumptions = []

    def model(self, name, r):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        self.cov["models"][name] = {"states": r.states, "transitions": r.transitions,
                                    "actions_taken": dict(sorted((a, c) for a, c in r.actions().items() if c))}

    def suite(self, name, v, scenarios=None, traces=None):
        self.cov["states"] += v.states
        self.cov["transitions"] += v.transitions
        self.cov["traces_validated_against_impl"] += v.accepted
        self.cov["trace_lines"] += v.lines
        hist = {}
        for t in traces or []:
            for e in t["ev"]:
                k = e["e"] + ("." + str(e["k"]) if "k" in e else "")
                hist[k] = hist.get(k, 0) + 1
        self.cov["suites"][name] = {"traces": v.accepted + len(v.rejected), "lines": v.lines,
                                    "tlc_states": v.states, "events": hist}
        if traces and len(self.cov["samples"]) < 4:
            t = min(traces, key=lambda t: len(t["ev"]))
            self.cov["samples"].append({"suite": name, "id": t["id"], "cfg": t["cfg"], "events": t["ev"][:25]})

    def violation(self, replay, text):
        self.violations.append((replay, text))

    def finish(self, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for replay, text in self.violations[:5]:
            log(text)
            log("VIOLATION property=%s replay=%s" % (self.prop, replay))
        log("%s: %s, %d traces validated, %d model states, %.1fs" % (
            self.prop, "VIOLATED" if self.violations else "held",
            self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - self.t0))
        return 1 if self.violations else 0


def save_replay(prop, name, data):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, "%s_%s.json" % (prop, re.sub(r"\W+", "_", name)))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                m = re.match(r"known: property=(\w+) match=(\S+) (.*)", line)
                if m:
                    r.append((m.group(2), m.group(3)))
    return r


def together(scenarios, same="", beside=True):
    """Each scenario after another one in the same process, or (`beside`) half of them beside one; what came before, or
    is going on, makes no difference.  `same`: the first word of the line that configures the harness, which is then the same."""
    out = []
    for k, (sid, cfg, lines) in enumerate(scenarios):
        o = scenarios[k - 1][2]
        mark = "~ "
        if beside and k % 2:
            own = [l for l in lines if l.split()[0] == same]
            o = [own.pop(0) if l.split()[0] == same else l for l in o]
            mark = "~~ "
        out.append((sid, cfg, [mark + l for l in o] + list(lines)))
    return out


def suite(rep, name, exe, module, cfg, scenarios, branching=False, repeats=0, jobs=6, timeout=30, chunk=40,
          par=4, env=None, confirm=6, vtimeout=600, post=None, heap="2g"):
    """Run scenarios, validate, confirm rejections by re-running, record."""
    if rep.violations and time.time() - rep.t0 > 240:
        return [], None
    traces = run_harness(exe, scenarios, jobs=jobs, timeout=timeout, env=env)
    ran = [k for k, t in enumerate(traces) if t is not None]
    scenarios, traces = [scenarios[k] for k in ran], [traces[k] for k in ran]
    if post:
        traces = [post(t) for t in traces]
    v = validate(module, cfg, traces, chunk=chunk, branching=branching, par=par, timeout=vtimeout, heap=heap)
    reported = 0
    for k, prefix, why in v.rejected:
        if reported >= 2:
            break
        # a rejection counts only if a re-run repeats it
        again = None
        for _ in range(confirm):
            copies = [scenarios[k]] * (1 if confirm == 1 else 8)
            t2 = run_harness(exe, [("%s" % c[0], c[1], c[2]) for c in copies], jobs=jobs, timeout=timeout, env=env)
            t2 = [t for t in t2 if t is not None]
            if post:
                t2 = [post(t) for t in t2]
            v2 = validate(module, cfg, t2, chunk=len(t2), branching=branching, par=1, max_reject=1, timeout=vtimeout, heap=heap)
            if v2.rejected:
                again = (t2[v2.rejected[0][0]], v2.rejected[0][1], v2.rejected[0][2])
                break
        if again is None:
            log("note: %s: trace %s was rejected once but no re-run repeated it; not reported" % (name, scenarios[k][0]))
            continue
        t, pfx, why = again
        kf = [d for m, d in known_findings(rep.prop) if m == str(scenarios[k][0])]
        if kf:
            log("KNOWN-FINDING: property=%s %s" % (rep.prop, kf[0]))
            continue
        ev = t["ev"]
        nxt = ev[pfx] if pfx < len(ev) else None
        replay = save_replay(rep.prop, name + "_" + str(scenarios[k][0]), {
            "property": rep.prop, "suite": name, "spec": module, "spec_cfg": cfg, "scenario": scenarios[k],
            "matched_prefix": pfx, "first_unexplained_event": nxt, "violated": why, "trace": t})
        rep.violation(replay, "%s: %s: trace %s: event %d is not allowed by %s: %s (after %s)" % (
            rep.prop, name, scenarios[k][0], pfx + 1, module, json.dumps(nxt), json.dumps(ev[max(0, pfx - 3):pfx])))
        reported += 1
    rep.suite(name, v, scenarios, traces)
    log("suite %-28s %5d traces %7d lines: %d accepted, %d rejected (%.1fs)" % (
        name, len(traces), v.lines, v.accepted, len(v.rejected), time.time() - rep.t0))
    return traces, v
