"""One function per property: models to explore, suites to run."""
import vlib, core
from vlib import SEED, TIER, model_check, suite, build

QUICK = TIER != "thorough"
CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def scale(q, t=None):
    return q if QUICK else (t if t is not None else q * 12)


BASE = ["error.cpp", "exception.cpp", "log/logger.cpp", "model_description.cpp"]
CORE_SRC = BASE + ["algorithm/fixed_step_algorithm.cpp", "execution.cpp", "slave_simulator.cpp", "timer.cpp",
                   "utility/concurrency.cpp", "utility/filesystem.cpp", "utility/uuid.cpp",
                   "function/linear_transformation.cpp", "function/vector_sum.cpp", "function/utility.cpp",
                   "manipulator/override_manipulator.cpp", "system_structure.cpp"]


def core_exe():
    return build("cosim_core", ["cosim_core.cpp"], CORE_SRC)


def tcosim(*aspects):
    return "SPECIFICATION TSpec\nCONSTANT Aspects = {%s}\n" % ", ".join('"%s"' % a for a in aspects)


def mccosim(family, steps, ops, invs=(), props=()):
    return ('SPECIFICATION Spec\nCONSTANTS Family = "%s" MaxSteps = %d MaxOps = %d\nINVARIANTS TypeOK %s\n%sCHECK_DEADLOCK FALSE\n'
            % (family, steps, ops, " ".join(invs), "PROPERTIES %s\n" % " ".join(props) if props else ""))


def core_model(rep, family, steps, ops, invs=(), props=(), need=()):
    r = model_check("MCCosim", mccosim(family, steps, ops, invs, props), "Cosim/" + family, need_actions=need)
    rep.model("Cosim/" + family, r)


def grid_model(rep):
    """Cosim's steps are those of StepGrid, about which there is a proof."""
    for h in ((0, 20, 35), (10, 45, 20)) if QUICK else [(0, a, b) for a in (0, 20, 30, 50) for b in (20, 35, 45, 70)]:
        r = model_check("MCGrid", 'SPECIFICATION Spec\nCONSTANTS Family = "rates" MaxSteps = %d MaxOps = 0 H1 = %d H2 = %d H3 = %d\nCONSTANT Configs <- GridConfigs\n'
                        "INVARIANTS SimsOnGrid GridNear GridJoint\nPROPERTIES IsGrid\nCHECK_DEADLOCK FALSE\n" % (scale(7, 12), *h), "Grid/%d/%d/%d" % h)
        rep.model("Grid/%d/%d/%d" % h, r)
    vlib.prove(rep, "Grid")


def core_suite(rep, name, aspects, n, together=False, **kw):
    scen = core.suite(SEED, n, name, **kw)
    if together:
        scen = vlib.together(scen, "alg")
    return suite(rep, name, core_exe(), "TCosim", tcosim(*aspects), scen)


def must_fail(module, cfg, name, prop):
    """A deliberately wrong variant of a model must be refuted: the property is not vacuous there."""
    r = vlib.tlc(module, cfg, workers=2)
    if r.ok or not any(prop in v for v in r.violated) and "violated" not in r.out:
        raise vlib.CheckError("%s: expected a violation of %s:\n%s" % (name, prop, r.out[-2000:]))
    vlib.log("model %-28s refuted as it should be" % name)


@check("A01")
def a01(rep):
    core_model(rep, "rates", 4, 1, ["TimeGrid", "SimsOnGrid"], ["Contiguous"], ["StepBegin", "UntilBegin", "DoStepEnd"])
    grid_model(rep)
    core_suite(rep, "grid", ["time", "sched"], scale(120), nman=(0, 1), conn=1.0, ops=(6, 14))
    core_suite(rep, "far", ["time", "sched"], scale(60), far=0.4, nsim=(2, 5), nman=(0, 1), conn=1.0, ops=(6, 14))
    core_suite(rep, "many", ["time", "sched"], scale(3), nsim=(18, 40), nman=(0, 1), conn=0.3, ops=(5, 9))
    core_suite(rep, "others", ["time", "sched"], scale(24), together=True, nsim=(1, 5), nman=(0, 1), conn=1.0, ops=(6, 12))
    suite(rep, "long", core_exe(), "TCosim", tcosim("time", "sched", "vals"), [core.long_run(SEED, "0")], chunk=1)


@check("A02")
def a02(rep):
    core_model(rep, "obs", 3, 1, ["TimeGrid", "FailedStepNotPublished"], [], ["UntilBegin", "CbObsStep", "OpEnd"])
    core_suite(rep, "until", ["time", "run", "until"], scale(120), until=0.85, stop=0.35, nman=(0, 1), nfun=(0, 0), nobs=(1, 2), ops=(4, 12))
    core_suite(rep, "others", ["time", "run", "until"], scale(20), together=True, until=0.85, stop=0.35, nman=(0, 1), nfun=(0, 0), nobs=(1, 2), ops=(4, 10))
    core_suite(rep, "untilfail", ["time", "run", "until"], scale(40), until=0.85, fail=0.5, nfun=(0, 0), nobs=(0, 2), ops=(4, 10))


@check("A04")
def a04(rep):
    core_model(rep, "rates", 4, 2, ["Fresh"], [], ["ConnectSS", "DoStepBegin"])
    core_model(rep, "funs", scale(3, 4), 2, ["Fresh"], [], ["ConnectSF", "ConnectFS", "SetDecimation", "RemoveSim"])
    core_suite(rep, "transfer", ["time", "sched", "vals", "ovals"], scale(90), nman=(0, 0), nfun=(0, 0), inits=0.5, ops=(8, 16), nsim=(2, 5), conn=4)
    core_suite(rep, "transferfun", ["time", "sched", "vals", "ovals"], scale(90), nman=(0, 0), nfun=(1, 3), inits=0.5, ops=(8, 16), ntypes=2, nsim=(2, 4), conn=5, reconf=0.3)
    core_suite(rep, "transferfar", ["time", "sched", "vals", "ovals"], scale(60), far=0.4, nman=(0, 0), nfun=(0, 2), inits=0.5, ops=(8, 16), ntypes=2, nsim=(2, 5), conn=5)
    core_suite(rep, "many", ["time", "sched", "vals", "initvals", "ovals", "notify"], scale(4), nsim=(18, 40), nfun=(0, 6), nobs=(1, 3), nman=(0, 1), ops=(3, 5), conn=3)
    core_suite(rep, "others", ["time", "sched", "vals", "initvals", "ovals"], scale(24), together=True, nman=(0, 0), nfun=(1, 3), nobs=(1, 2), inits=0.5, ops=(5, 10), nsim=(2, 5), conn=5)
    core_suite(rep, "broad", ["time", "sched", "vals", "initvals", "ovals", "mods"], scale(6), nsim=(1, 2), nvar=(40, 90), nfun=(0, 1), nobs=(1, 2), nman=(1, 2), reqs=0.85, mods=0.5, ops=(6, 12), conn=40, inits=12)
    suite(rep, "fan", core_exe(), "TCosim", tcosim("time", "sched", "vals", "ovals"), [core.fan("%s-fan-%d" % (SEED, i), "fan%d" % i) for i in range(scale(40))])


@check("A05")
def a05(rep):
    core_model(rep, "rates", 3, 1, ["Barrier", "PhaseSync"], [], ["SetupBegin", "SetupEnd", "StartBegin", "DoStepBegin", "DoStepEnd"])
    core_suite(rep, "threads", ["time", "sched", "vals", "initvals", "ovals"], scale(80), jitter=600, threads=[1, 2, 3, 7, -1, 64], nsim=(3, 8), nobs=(1, 2), ops=(4, 8), nvar=(2, 4))
    core_suite(rep, "modthreads", ["time", "sched", "vals", "initvals", "ovals", "mods"], scale(60), jitter=600, threads=[2, 3, 7, -1], nsim=(3, 8), nobs=(1, 2), nman=(1, 2), reqs=0.85, ops=(6, 10), nvar=(3, 6))
    core_suite(rep, "manythreads", ["time", "sched", "vals", "initvals", "ovals", "mods"], scale(3), jitter=300, threads=[2, 8, -1], nsim=(18, 30), nobs=(1, 2), nman=(1, 2), reqs=0.85, ops=(3, 5), nvar=(1, 3), conn=2)
    core_suite(rep, "others", ["time", "sched", "vals", "initvals", "ovals", "mods"], scale(20), together=True, jitter=300, threads=[1, 2, 3, 7, 0], nsim=(3, 6), nobs=(1, 2), nman=(1, 2), reqs=0.8, ops=(4, 8), nvar=(2, 4))
    same_across_threads(rep, scale(24))
    core_suite(rep, "storm", ["time", "sched", "vals", "initvals", "ovals", "mods"], scale(3), nsim=(8, 8), nvar=(40, 60), nman=(1, 1), nobs=(1, 1), nfun=(0, 0), threads=[8], reqs=0.5, mods=0.3, hints=False, ops=(40, 60), conn=25)


def same_across_threads(rep, n):
    """The same scenario for several worker counts: all accepted by one deterministic specification, with equal values."""
    scen = []
    for i in range(n):
        for th in (0, 1, 3, 7):
            s = core.scenario("%s-same-%d" % (SEED, i), "same%d_%d" % (i, th), threads=[th], jitter=300, nsim=(3, 6), ops=(4, 7), nobs=(1, 2))
            scen.append(s)
    suite(rep, "same", core_exe(), "TCosim", tcosim("time", "sched", "vals", "initvals", "ovals"), scen)


@check("A06")
def a06(rep):
    core_model(rep, "mods", 2, 2, ["PhaseSync"], [], ["InitValue", "SetupEnd", "StartEnd", "Request"])
    core_suite(rep, "init", ["time", "sched", "vals", "initvals", "notify"], scale(80), inits=3, ops=(1, 4), nsim=(1, 5), nobs=(1, 2))
    core_suite(rep, "chain", ["time", "sched", "vals", "initvals"], scale(60), inits=1, ops=(1, 3), nsim=(4, 8), nfun=(0, 3), chain=0.85, conn=4, badconn=0, nobs=(0, 1))
    core_suite(rep, "others", ["time", "sched", "vals", "initvals", "notify"], scale(24), together=True, inits=3, ops=(1, 4), nsim=(1, 5), nobs=(1, 2), nfun=(0, 2), conn=3)
    core_suite(rep, "longchain", ["time", "sched", "vals", "initvals"], scale(6), inits=0.5, ops=(1, 2), nsim=(12, 25), nvar=(2, 3), nfun=(0, 4), chain=0.9, conn=2, badconn=0, nobs=(0, 1))


@check("A07")
def a07(rep):
    core_model(rep, "funs", 3, scale(2, 3), ["SingleSource"], [], ["ConnectSS", "ConnectSF", "ConnectFS", "DisconnectVar", "DisconnectFun", "RemoveSim"])
    core_suite(rep, "conn", ["vals", "initvals"], scale(150), badconn=0.6, conn=8, nfun=(0, 3), ops=(2, 4), ntypes=2, nman=(0, 0), nobs=(0, 1))
    core_suite(rep, "reconf", ["vals", "initvals"], scale(80), reconf=1.0, conn=5, nfun=(0, 3), ops=(4, 10), ntypes=2, nman=(0, 1))
    core_suite(rep, "others", ["vals", "initvals"], scale(24), together=True, reconf=0.7, badconn=0.4, conn=5, nfun=(0, 3), ops=(4, 8), ntypes=2, nman=(0, 1))
    core_suite(rep, "manyconn", ["vals", "initvals"], scale(6), badconn=0.2, nsim=(2, 12), nvar=(10, 30), conn=20, nfun=(4, 12), ops=(3, 6), ntypes=2, nman=(0, 0), nobs=(0, 1), reconf=0.5)
    suite(rep, "fan", core_exe(), "TCosim", tcosim("vals", "initvals"), [core.fan("%s-fan-%d" % (SEED, i), "fan%d" % i) for i in range(scale(40))])


@check("A08")
def a08(rep):
    core_model(rep, "fail", 3, 1, ["FailedStepNotPublished", "Barrier"], ["ErrorIsFinal", "StepOrder", "NotTransferred"], ["StepBegin", "DoStepEnd", "SetupEnd", "StartEnd", "RetryBegin", "SetFails"])
    core_suite(rep, "fail", ["time", "run", "fail", "sched", "notify"], scale(120), fail=0.45, nobs=(0, 2), nsim=(1, 6), jitter=200)
    core_suite(rep, "failstep", ["time", "run", "fail", "sched", "notify"], scale(80), fail=0.4, fks=(1, 2), nobs=(1, 2), nsim=(2, 6), jitter=400)
    core_suite(rep, "others", ["time", "run", "fail", "sched", "notify"], scale(24), together=True, fail=0.35, nobs=(1, 2), nsim=(2, 6), jitter=200)
    core_suite(rep, "manyfail", ["time", "run", "fail", "sched", "notify"], scale(3), fail=0.3, fks=(1, 2), nobs=(1, 2), nsim=(18, 30), jitter=200, conn=0.5)
    core_suite(rep, "retry", ["retry"], scale(120), fail=0.3, fks=(2,), nobs=(0, 1), nsim=(2, 5), conn=5.0, badconn=0.0, retries=True)


@check("A09")
def a09(rep):
    core_model(rep, "obs", scale(2, 3), 2, ["TimeGrid", "FailedStepNotPublished"], ["StepOrder"], ["AddObs", "AddMan", "CbObsInit", "CbObsSim", "CbManStep", "CbManStepAdds", "CbManAdded"])
    core_suite(rep, "notify", ["time", "sched", "notify", "run", "ovals"], scale(130), nobs=(1, 4), nman=(0, 3), late=0.5, nfun=(0, 1), stop=0.3)
    core_suite(rep, "instep", ["time", "sched", "notify", "run", "ovals"], scale(80), nobs=(1, 4), nman=(1, 4), late=0.3, nfun=(0, 1), stop=0.2, instep=0.9, mods=0.0, reqs=0.0)
    core_suite(rep, "others", ["time", "sched", "notify", "run", "ovals"], scale(24), together=True, nobs=(1, 4), nman=(0, 3), late=0.5, nfun=(0, 1), stop=0.3)
    core_suite(rep, "manyobs", ["time", "sched", "notify", "run", "ovals"], scale(6), nsim=(1, 6), nobs=(8, 20), nman=(6, 14), late=0.5, nfun=(0, 1), stop=0.2, ops=(4, 8))


@check("A10")
def a10(rep):
    core_model(rep, "mods", 3, 2, ["ModSet"], [], ["Request", "DoStepBegin", "DoStepEnd"])
    core_suite(rep, "mods", ["time", "sched", "vals", "initvals", "ovals", "mods"], scale(150), nman=(1, 3), reqs=0.65, mods=0.8, nobs=(1, 2), nfun=(0, 1), ops=(6, 14))
    core_suite(rep, "others", ["time", "sched", "vals", "initvals", "ovals", "mods"], scale(24), together=True, nman=(1, 3), reqs=0.65, mods=0.8, nobs=(1, 2), nfun=(0, 1), ops=(6, 10))
    core_suite(rep, "storm", ["time", "sched", "vals", "initvals", "ovals", "mods"], scale(3), nsim=(8, 8), nvar=(40, 60), nman=(1, 1), nobs=(0, 0), nfun=(0, 0), threads=[8], reqs=0.95, mods=0.1, hints=False, ops=(60, 80), conn=0.5)
    core_suite(rep, "manymods", ["time", "sched", "vals", "initvals", "ovals", "mods"], scale(8), nsim=(1, 2), nvar=(30, 60), nman=(4, 10), reqs=0.9, mods=0.9, nobs=(1, 2), nfun=(0, 1), ops=(8, 14))


TBRANCH = "SPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"


@check("A03")
def a03(rep):
    import stopgen
    for ns, st, mx in ((1, 2, 3), (2, 1, 3)):
        r = model_check("MCStop", "SPECIFICATION Spec\nCONSTANTS NSim = %d Stoppers = {%s} MaxNow = %d Runs = 2\n"
                        "INVARIANTS StopHonoured TrueMeansReached FalseMeansStopped\nPROPERTIES AtLeastOneStep StopEnds\nCHECK_DEADLOCK FALSE\n"
                        % (ns, ", ".join('"x%d"' % k for k in range(st)), mx), "StopSim/%d" % ns,
                        need_actions=["StopTake", "Decide", "Outcome", "Commence", "Return"])
        rep.model("StopSim/%d" % ns, r)
    vlib.prove(rep, "Stop")
    exe = build("stopsim", ["stopsim.cpp"], CORE_SRC)
    for ns in (1, 2, 3):
        suite(rep, "stop%d" % ns, exe, "TStop", "CONSTANT NSim = %d\n" % ns + TBRANCH,
              stopgen.suite(SEED, scale(60), ns), branching=True)
        suite(rep, "others%d" % ns, exe, "TStop", "CONSTANT NSim = %d\n" % ns + TBRANCH,
              vlib.together(stopgen.suite(SEED + 1, scale(12), ns)), branching=True)


@check("A11")
def a11(rep):
    import exalggen
    for sims, ops, steps, now in ((1, 5, 3, 3), (2, 4, 2, 3)) if QUICK else ((1, 7, 3, 3), (2, 6, 3, 4)):
        r = model_check("MCExecAlg", "SPECIFICATION Spec\nCONSTANTS MaxOps = %d MaxSteps = %d MaxNow = %d MaxSims = %d\n"
                        "INVARIANTS TypeOK Lawful SameView OneSource Told Reached\nPROPERTIES NoTimeLost Unharmed\nCHECK_DEADLOCK FALSE\n" % (ops, steps, now, sims),
                        "ExecAlg/%d" % sims, need_actions=["AlgStep", "AlgInit", "AlgConnect", "ObsCb", "ManCb", "StepOver", "Return"])
        rep.model("ExecAlg/%d" % sims, r)
    vlib.prove(rep, "ExecAlg")
    exe = build("exalg", ["exalg.cpp"], CORE_SRC)
    for w in (1, 2):
        suite(rep, "scripted%d" % w, exe, "TExecAlg", "SPECIFICATION TSpec\n", exalggen.suite(SEED, scale(150), worlds=w))
    suite(rep, "others", exe, "TExecAlg", "SPECIFICATION TSpec\n", vlib.together(exalggen.suite(SEED + 1, scale(40), worlds=1)))


@check("A12")
def a12(rep):
    import facegen
    for refs, ops in (("{2}", 6),) if QUICK else (("{2}", 8), ("{2, 3}", 6)):
        r = model_check("MCSimFace", "SPECIFICATION Spec\nCONSTANTS Refs = %s Outs = {0} MaxOps = %d\nCONSTANT Vs <- Some\n"
                        "INVARIANTS TypeOK Given True Cached\nPROPERTIES Quiet Lawful\nCHECK_DEADLOCK FALSE\n" % (refs, ops),
                        "SimFace/%d" % len(refs), need_actions=["Slave", "Return", "Iterate", "Step", "InMod", "OutMod", "Set"])
        rep.model("SimFace/%d" % len(refs), r)
    vlib.prove(rep, "SimFace")
    exe = build("simface", ["simface.cpp"], CORE_SRC)
    cfg = "SPECIFICATION TSpec\nCONSTANT Refs <- TRefs\nCONSTANT Outs <- TOuts\n"
    suite(rep, "faces", exe, "TSimFace", cfg, facegen.suite(SEED, scale(300)))
    suite(rep, "others", exe, "TSimFace", cfg, vlib.together(facegen.suite(SEED + 1, scale(40))))


@check("A13")
def a13(rep):
    import fungen
    r = model_check("MCFunFace", "SPECIFICATION Spec\nCONSTANTS MaxSteps = %d Rates = %s\nINVARIANTS TypeOK OneSource InStep Passed\n"
                    "PROPERTIES Apart Once Fresh Joint Kept\nCHECK_DEADLOCK FALSE\n" % (scale(6, 9), "{1, 2, 3}" if QUICK else "{1, 2, 3, 4}"),
                    "FunFace", need_actions=["Build", "Run"])
    rep.model("FunFace", r)
    exe = build("funface", ["funface.cpp"], CORE_SRC)
    cfg = "SPECIFICATION TSpec\n"
    suite(rep, "functions", exe, "TFunFace", cfg, fungen.suite(SEED, scale(300)))
    suite(rep, "others", exe, "TFunFace", cfg, vlib.together(fungen.suite(SEED + 1, scale(40))))


@check("R01")
def r01(rep):
    import pacegen
    r = model_check("MCPacing", "SPECIFICATION Spec\nCONSTANTS Unit = 2 Tol = 1 Slow = 3\nINVARIANT NeverAhead\nCHECK_DEADLOCK FALSE\n",
                    "Pacing", need_actions=["RunBegin", "StepEnd", "Resume"])
    rep.model("Pacing", r)
    exe = build("pacing", ["pacing.cpp"], CORE_SRC)
    # Unit: 1000 us of wall clock per ms; the timer ignores sleeps below 100 us
    suite(rep, "pacing", exe, "TPacing", "SPECIFICATION TSpec\nCONSTANTS Unit = 1000 Tol = 150 Slow = 250000\n",
          pacegen.suite(SEED, scale(80)), jobs=16)
    suite(rep, "others", exe, "TPacing", "SPECIFICATION TSpec\nCONSTANTS Unit = 1000 Tol = 150 Slow = 250000\n",
          vlib.together(pacegen.suite(SEED + 1, scale(24))), jobs=16)


@check("R02")
def r02(rep):
    import pacegen
    r = model_check("MCMetrics", "SPECIFICATION Spec\nCONSTANTS Unit = 2 Tol = 1 Slow = 3 MaxK = %d\nINVARIANTS TotalNotAboveTarget Tiling WindowSize Stretch Exact\nPROPERTY FullWindow\nCHECK_DEADLOCK FALSE\n" % (6 if QUICK else 7),
                    "Metrics", need_actions=["RunBegin", "StepEnd", "Resume", "Compute", "MFirst"])
    rep.model("Metrics", r)
    exe = build("pacing", ["pacing.cpp"], CORE_SRC)
    suite(rep, "metrics", exe, "TMetrics", "CONSTANTS Unit = 1000 Tol = 150 Slow = 250000\n" + TBRANCH,
          pacegen.metrics(SEED, scale(120)), jobs=16, branching=True)
    suite(rep, "others", exe, "TMetrics", "CONSTANTS Unit = 1000 Tol = 150 Slow = 250000\n" + TBRANCH,
          vlib.together(pacegen.metrics(SEED + 1, scale(24))), jobs=16, branching=True)


@check("T01")
def t01(rep):
    import poolgen
    for n, w in ((1, 2), (2, 2), (3, 1)):
        r = model_check("MCPool", 'SPECIFICATION Spec\nCONSTANTS N = %d Tasks = {1, 2, 3} Waiters = {%s} WakeAll = TRUE\n'
                        "INVARIANTS ExactlyOnce AllRun WaitPromise\nPROPERTIES EveryTaskRuns EveryWaitReturns DestroyReturns\nCHECK_DEADLOCK FALSE\n"
                        % (n, ", ".join('"w%d"' % k for k in range(w))), "Pool/%d" % n, need_actions=["WorkerCheck", "WorkerEnd", "WaiterCheck", "Destroy", "Joined"])
        rep.model("Pool/%d" % n, r)
    vlib.prove(rep, "Pool")
    exe = build("pool", ["pool.cpp"], [])
    for n in (0, 1, 2, 4):
        suite(rep, "pool%d" % n, exe, "TPool", "CONSTANT N = %d\n" % n + TBRANCH, poolgen.suite(SEED, scale(60), n), branching=True, timeout=8)
        suite(rep, "others%d" % n, exe, "TPool", "CONSTANT N = %d\n" % n + TBRANCH, vlib.together(poolgen.suite(SEED + 1, scale(12), n)), branching=True, timeout=8)


OBS_SRC = BASE + ["observer/last_value_observer.cpp", "observer/slave_value_provider.cpp", "observer/time_series_observer.cpp"]
MODELS = dict(O01="Series", O02="Series", O03="Series", M01="Override", M02="Scenario", M03="Scenario", O04="FileLog", O05="ConcObs")


def series_model(rep, invs):
    for b in (1, 2, 3):
        r = model_check("MCSeries", "SPECIFICATION Spec\nCONSTANTS Buf = %d MaxStep = %d MaxOps = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
                        % (b, scale(4, 6), scale(3, 4), invs), "Series/%d" % b, need_actions=["MStep", "MStart", "MStop", "MChange"])
        rep.model("Series/%d" % b, r)


def series_check(rep, kind, aspects, n):
    import seriesgen
    exe = build("observers", ["observers.cpp"], OBS_SRC)
    suite(rep, kind, exe, "TSeries", tcosim(*aspects), seriesgen.suite(SEED, n, kind))
    suite(rep, kind + " long", exe, "TSeries", tcosim(*aspects), seriesgen.suite(SEED, scale(5), kind, long=True))
    suite(rep, kind + " others", exe, "TSeries", tcosim(*aspects), vlib.together(seriesgen.suite(SEED + 1, scale(24), kind)))


@check("O01")
def o01(rep):
    series_model(rep, "LastValue")
    series_check(rep, "last", ["last"], scale(300))


@check("O02")
def o02(rep):
    series_model(rep, "SeriesExact Queries TimesKnown")
    series_check(rep, "series", ["series"], scale(300))


@check("O03")
def o03(rep):
    series_model(rep, "SeriesExact SyncSameStep")
    series_check(rep, "sync", ["sync", "series"], scale(300))


MANIP_SRC = BASE + ["manipulator/override_manipulator.cpp", "manipulator/scenario_manager.cpp", "scenario_parser.cpp"]


@check("M01")
def m01(rep):
    import manipgen
    r = model_check("MCOverride", 'SPECIFICATION Fair\nCONSTANTS Threads = {"a", "b"} MaxReq = %d\nINVARIANTS PrefixEffect NothingLost RefusedLeavesNoTrace\n'
                    "PROPERTIES StepUndisturbed EventuallyApplied\nCHECK_DEADLOCK FALSE\n" % scale(3, 4), "Override",
                    need_actions=["ReqBegin", "Enqueue", "ReqEnd", "Apply"])
    rep.model("Override", r)
    exe = build("manip", ["manip.cpp"], MANIP_SRC)
    suite(rep, "override", exe, "TOverride", TBRANCH, manipgen.overrides(SEED, scale(250)), branching=True)
    suite(rep, "override big", exe, "TOverride", TBRANCH, manipgen.overrides(SEED, scale(6), big=True), branching=True)
    suite(rep, "override others", exe, "TOverride", TBRANCH, vlib.together(manipgen.overrides(SEED + 1, scale(24)), beside=False), branching=True)


def scenario_model(rep):
    for ev, now, loads in ((2, 5, 1), (1, 4, 2)) if QUICK else ((2, 5, 2), (3, 5, 1)):
        r = model_check("MCScenario", "SPECIFICATION Spec\nCONSTANTS MaxEv = %d MaxNow = %d MaxLoads = %d\n"
                        "INVARIANTS OnceEach NotEarly InTimeOrder AllUndone OnlyTouched\nPROPERTIES ReplaceUndoes\nCHECK_DEADLOCK FALSE\n" % (ev, now, loads),
                        "Scenario/%d" % ev, need_actions=["MLoad", "MAbort", "MStep"])
        rep.model("Scenario/%d" % ev, r)


@check("M02")
def m02(rep):
    import manipgen
    scenario_model(rep)
    exe = build("manip", ["manip.cpp"], MANIP_SRC)
    suite(rep, "scenario", exe, "TScenario", "SPECIFICATION TSpec\n", manipgen.scenarios(SEED, scale(300)))
    suite(rep, "scenarios big", exe, "TScenario", "SPECIFICATION TSpec\n", manipgen.scenarios(SEED, scale(6), big=True))
    suite(rep, "scenario others", exe, "TScenario", "SPECIFICATION TSpec\n", vlib.together(manipgen.scenarios(SEED + 1, scale(24))))


@check("M03")
def m03(rep):
    import manipgen
    scenario_model(rep)
    exe = build("manip", ["manip.cpp"], MANIP_SRC)
    suite(rep, "files", exe, "TScenario", "SPECIFICATION TSpec\n", manipgen.files(SEED, scale(300)))
    suite(rep, "files big", exe, "TScenario", "SPECIFICATION TSpec\n", manipgen.files(SEED, scale(6), big=True))
    suite(rep, "files others", exe, "TScenario", "SPECIFICATION TSpec\n", vlib.together(manipgen.files(SEED + 1, scale(24))))


@check("O04")
def o04(rep):
    import filegen
    for st in ("TRUE", "FALSE"):
        r = model_check("MCFileLog", "SPECIFICATION Spec\nCONSTANTS MaxStep = %d MaxOps = %d Stamped = %s Ds = {1, 2, 3}\n"
                        "INVARIANTS ExactRows Complete HeaderFirst\nPROPERTIES Quiet\nCHECK_DEADLOCK FALSE\n" % (scale(4, 6), scale(2, 4), st),
                        "FileLog/" + st, need_actions=["MStep", "MStart", "MStop", "MInitialized"])
        rep.model("FileLog/" + st, r)
    exe = build("filelog", ["filelog.cpp"], BASE + ["observer/file_observer.cpp"])
    suite(rep, "filelog", exe, "TFileLog", "SPECIFICATION TSpec\n", filegen.suite(SEED, scale(300)))
    suite(rep, "filelog long", exe, "TFileLog", "SPECIFICATION TSpec\n", filegen.suite(SEED, scale(4), long=True))
    suite(rep, "filelog others", exe, "TFileLog", "SPECIFICATION TSpec\n", vlib.together(filegen.suite(SEED + 1, scale(24))))


@check("O05")
def o05(rep):
    import random
    base = "SPECIFICATION Spec\nCONSTANTS NVar = %d MaxStep = %d Readers = {\"a\", \"b\"} Locked = %s\nINVARIANT Fresh\nCHECK_DEADLOCK FALSE\n"
    r = model_check("MCConcObs", base % (2, scale(2, 3), "TRUE"), "ConcObs", need_actions=["WCopy", "RCopy", "ROwn", "REnd"])
    rep.model("ConcObs", r)
    must_fail("MCConcObs", base % (2, 2, "FALSE"), "ConcObs without the lock", "Fresh")
    exe = build("concobs", ["concobs.cpp"], OBS_SRC)
    scen = []
    for k in range(scale(120)):
        q = random.Random("%s-conc-%d" % (SEED, k))
        n, buf = q.choice([1, 1, 2, 3]), q.choice([1, 2, 3, 5, 8, 30])
        scen.append(("conc%d" % k, {"n": n, "buf": buf, "dt": 10},
                     ["%d %d %d %d %d %d %d %d" % (n, q.choice([1, 2, 5, 20]), q.choice([10, 25]), q.choice([1, 2, 3]), q.choice([15, 30]), buf, k + 1000 * SEED, q.choice([1, 3, 7, 0]))]))
        if k % 6 == 5:
            scen[-1][2][0] = " ".join(scen[-1][2][0].split()[:2] + ["400"] + scen[-1][2][0].split()[3:]) + " 2"
    suite(rep, "conc", exe, "TConcObs", "SPECIFICATION TSpec\n", scen)


SYS_SRC = BASE + ["function/linear_transformation.cpp", "function/vector_sum.cpp", "function/utility.cpp", "system_structure.cpp"]
MODELS.update(S01="SysStruct", S03="Function", S02="Cosim")


@check("S01")
def s01(rep):
    import sysgen
    r = model_check("MCSysStruct", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\nINVARIANT WellFormed\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n" % scale(5, 6),
                    "SysStruct", need_actions=["AddSim", "AddFun", "Connect", "AddValue"])
    rep.model("SysStruct", r)
    exe = build("sysstruct", ["sysstruct.cpp"], SYS_SRC)
    suite(rep, "structure", exe, "TSysStruct", "SPECIFICATION TSpec\n", sysgen.structures(SEED, scale(400)))
    suite(rep, "structure big", exe, "TSysStruct", "SPECIFICATION TSpec\n", sysgen.structures(SEED, scale(8), big=True))
    suite(rep, "structure others", exe, "TSysStruct", "SPECIFICATION TSpec\n", vlib.together(sysgen.structures(SEED + 1, scale(24))))


@check("S03")
def s03(rep):
    import sysgen
    r = model_check("MCFunction", "SPECIFICATION Spec\nCONSTANTS MaxN = 2 MaxOps = %d\nINVARIANTS Outputs Shape\nCHECK_DEADLOCK FALSE\n" % scale(4, 5),
                    "Function", need_actions=["Inst", "MakeSum", "Set", "Calculate"])
    rep.model("Function", r)
    exe = build("sysstruct", ["sysstruct.cpp"], SYS_SRC)
    suite(rep, "functions", exe, "TFunction", "SPECIFICATION TSpec\n", sysgen.functions(SEED, scale(400)))
    suite(rep, "functions others", exe, "TFunction", "SPECIFICATION TSpec\n", vlib.together(sysgen.functions(SEED + 1, scale(24))))


@check("S02")
def s02(rep):
    core_model(rep, "rates", 3, 1, ["Fresh", "SimsOnGrid"], [], ["ConnectSS", "DoStepBegin"])
    cfg = tcosim("time", "sched", "vals", "initvals", "ovals", "notify").replace("TSpec", "TSpecI")
    suite(rep, "inject", core_exe(), "TInject", cfg, core.structured(SEED, scale(200), "inject", nsim=(1, 6), nfun=(0, 3), inits=2, conn=4, ops=(2, 7), nobs=(1, 2), nman=(0, 1)))
    suite(rep, "others", core_exe(), "TInject", cfg, vlib.together(core.structured(SEED + 1, scale(24), "inject", nsim=(1, 6), nfun=(0, 3), inits=2, conn=4, ops=(2, 7), nobs=(1, 2), nman=(0, 1)), "alg"))
    suite(rep, "injectmany", core_exe(), "TInject", cfg, core.structured(SEED, scale(5), "injectmany", nsim=(12, 30), nvar=(2, 12), nfun=(0, 6), inits=3, conn=4, ops=(2, 4), nobs=(1, 2), nman=(0, 1)))


MODELS.update(U01="Uri", A11="ExecAlg", A12="SimFace", A13="FunFace")


@check("U01")
def u01(rep):
    import urigen
    r = model_check("MCUri", "SPECIFICATION Spec\nCONSTANTS MaxPath = %d MaxStr = %d MaxRef = %d MaxCode = %d\nINVARIANTS BySegments NoDots Idempotent RoundTrip Valid Unique ResolveLaws Coding\n"
                    "PROPERTIES Shrinks\nCHECK_DEADLOCK FALSE\n" % (scale(8, 10), scale(5, 6), scale(4, 6), scale(4, 5)), "Uri", coverage=False)
    must_fail("MCUri", "SPECIFICATION Spec\nCONSTANTS MaxPath = 3 MaxStr = 0 MaxRef = 0 MaxCode = 0\nINVARIANT Unfinished\nCHECK_DEADLOCK FALSE\n", "Uri never finishing", "Unfinished")
    rep.model("Uri", r)
    exe = build("uri", ["uri.cpp"], BASE + ["uri.cpp"])
    cfg = "SPECIFICATION TSpec\n"
    suite(rep, "exhaustive", exe, "TUri", cfg, urigen.exhaustive(scale(6, 8), scale(4, 6)))
    suite(rep, "coding", exe, "TUri", cfg, urigen.decoding())
    suite(rep, "random", exe, "TUri", cfg, urigen.rnd(SEED, scale(12000)))


MODELS.update(F01="TempCache", F02="FileCache", T02="FileLock", Z01="Archive")
CACHE_SRC = BASE + ["file_cache.cpp", "uri.cpp", "utility/concurrency.cpp", "utility/filesystem.cpp", "utility/uuid.cpp"]


@check("F01")
def f01(rep):
    import cachegen
    cfg = "SPECIFICATION Spec\nCONSTANTS Keys = {%s} MaxH = %d MaxOps = %d Forget = %s\nINVARIANTS Exclusive Existing Apart Agree\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n"
    r = model_check("MCTempCache", cfg % ('"k", "l"', scale(4, 5), scale(7, 8), "FALSE"), "TempCache", need_actions=["MRw", "MRo", "MRelease", "MDestroy"])
    rep.model("TempCache", r)
    must_fail("MCTempCache", cfg % ('"k"', 4, 7, "TRUE"), "TempCache forgetting handles", "GetRw")
    exe = build("tempcache", ["tempcache.cpp"], CACHE_SRC)
    suite(rep, "temp", exe, "TTempCache", "SPECIFICATION TSpec\n", cachegen.temp(SEED, scale(400)))
    suite(rep, "others", exe, "TTempCache", "SPECIFICATION TSpec\n", vlib.together(cachegen.temp(SEED + 1, scale(24)), beside=False))


@check("Z01")
def z01(rep):
    import archgen
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxEntries = %d MaxSegs = %d Guarded = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    for n, s in ((2, 2), (1, 4)) if scale(1, 2) == 1 else ((3, 2), (2, 3), (1, 5)):
        r = model_check("MCArchive", cfg % (n, s, "TRUE", "Stays WellFormedFs FromArchive Complete"), "Archive/%d/%d" % (n, s), coverage=False)
        rep.model("Archive/%d/%d" % (n, s), r)
    must_fail("MCArchive", cfg % (1, 3, "FALSE", "Stays"), "Archive without the check", "Stays")
    exe = build("archive", ["archive.cpp"], BASE + ["utility/zip.cpp"])
    tc = "SPECIFICATION TSpec\n"
    suite(rep, "exhaustive", exe, "TArchive", tc, archgen.exhaustive(scale(4, 5)))
    suite(rep, "random", exe, "TArchive", tc, archgen.rnd(SEED, scale(300)))
    suite(rep, "broken", exe, "TArchive", tc, archgen.broken(SEED, 12))
    suite(rep, "others", exe, "TArchive", tc, vlib.together(archgen.rnd(SEED + 1, scale(24)), beside=False))


@check("T02")
def t02(rep):
    import cachegen
    cfg = ("SPECIFICATION Spec\nCONSTANTS Threads = {1, 2, 3} Procs = {1, 2} Files = {%s} MaxOps = %d\nCONSTANT ProcOf <- ThreeProcOf\n"
           "INVARIANTS Exclusion Tight Blocked TryIsFree\nPROPERTIES EveryoneGoesOn IsRWLock\nCHECK_DEADLOCK FALSE\n")
    for f, n in (("1", scale(4, 5)), ("1, 2", scale(2, 3))):
        r = model_check("MCFileLock", cfg % (f, n), "FileLock/%d" % len(f), need_actions=["MAsk", "MRelease", "MDie"])
        rep.model("FileLock/%d" % len(f), r)
    vlib.prove(rep, "RWLock")
    exe = build("filelock", ["filelock.cpp"], BASE + ["utility/concurrency.cpp"])
    tc = "CONSTANTS Threads = {1, 2, 3, 4, 5, 6, 7, 8, 9} Procs = {1, 2, 3} Files = {1}\nCONSTANT ProcOf <- TProcOf\n" + TBRANCH
    suite(rep, "pairs", exe, "TFileLock", tc, cachegen.lock_pairs(), branching=True, timeout=60, jobs=8)
    suite(rep, "locks", exe, "TFileLock", tc, cachegen.locks(SEED, scale(200)), branching=True, timeout=60, jobs=8)
    suite(rep, "churn", exe, "TFileLock", tc, cachegen.lock_churn(SEED, scale(100)), branching=True, timeout=60, jobs=8)
    suite(rep, "closing", exe, "TFileLock", tc, cachegen.lock_closing(SEED, scale(100)), branching=True, timeout=60, jobs=8)


@check("F02")
def f02(rep):
    import cachegen
    cfg = "SPECIFICATION %s\nCONSTANTS Clients = {%s} Keys = {%s} MaxCalls = %d Wait = \"%s\" Root = %s\n%s\nCHECK_DEADLOCK FALSE\n"
    live = "INVARIANTS Exclusive KeptInUse Current\nPROPERTIES NobodyElseBlocks CleanupEnds UsesRWLock"
    inv = "INVARIANTS Exclusive KeptInUse Current Allowed FoundOk WaitOk"
    for cl, ks, n in (("1, 2", "1, 2", scale(3, 4)), ("1, 2, 3", "1", scale(3, 5))):
        rep.model("CacheLocks/" + ks, model_check("CacheLocks", cfg % ("Spec", cl, ks, n, "release", "TRUE", live), "CacheLocks/" + ks,
                                                  need_actions=["LockKey", "Wake", "CleanFile"]))
        rep.model("CacheLocks:FileCache/" + ks, model_check("MCCacheLocks", cfg % ("MSpec", cl, ks, n + 1, "release", "TRUE", inv), "CacheLocks:FileCache/" + ks))
    must_fail("CacheLocks", cfg % ("Spec", "1, 2, 3", "1, 2", 3, "keep", "TRUE", "PROPERTIES NobodyElseBlocks"), "CacheLocks waiting with the root lock", "NobodyElseBlocks")
    must_fail("MCCacheLocks", cfg % ("MSpec", "1, 2, 3", "1", 4, "release", "FALSE", "INVARIANT Allowed"), "CacheLocks cleaning without the root lock", "Allowed")
    exe = build("filecache", ["filecache.cpp"], CACHE_SRC)
    tc = "SPECIFICATION TSpec\nCONSTANT Keys <- TKeys\nCONSTANT ProcOf <- TProcOf\n"
    suite(rep, "basic", exe, "TFileCache", tc, cachegen.cache_basic(), timeout=60, jobs=8)
    suite(rep, "steps", exe, "TFileCache", tc, cachegen.caches(SEED, scale(200)), timeout=60, jobs=8)
    suite(rep, "churn", exe, "TFileCache", tc, cachegen.cache_churn(SEED, scale(100)), timeout=60, jobs=8)


MODELS.update(L02="Resolver")


@check("L02")
def l02(rep):
    import resolvegen
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxSubs = %d First2 = %s\n%s\nCHECK_DEADLOCK FALSE\n"
    r = model_check("MCResolver", cfg % (scale(3, 4), "FALSE", "INVARIANTS ByFirst InOrder Absolutes SameAtOnce\nPROPERTY Ending"), "Resolver", coverage=False)
    rep.model("Resolver", r)
    must_fail("MCResolver", cfg % (2, "TRUE", "INVARIANT ByFirst"), "Resolver going on after failures", "ByFirst")
    exe = build("resolver", ["resolver.cpp"], CACHE_SRC + ["orchestration.cpp"])
    suite(rep, "pairs", exe, "TResolver", "SPECIFICATION TSpec\n", resolvegen.pairs())
    suite(rep, "random", exe, "TResolver", "SPECIFICATION TSpec\n", resolvegen.rnd(SEED, scale(300)))
    suite(rep, "others", exe, "TResolver", "SPECIFICATION TSpec\n", vlib.together(resolvegen.rnd(SEED + 1, scale(24))))


MODELS.update(L01="OspConfig")
OSP_SRC = SYS_SRC + ["orchestration.cpp", "uri.cpp", "file_cache.cpp", "utility/concurrency.cpp", "utility/filesystem.cpp", "utility/uuid.cpp", "osp_config_parser.cpp"]


@check("L01")
def l01(rep):
    import ospgen
    cfg = 'SPECIFICATION Spec\nCONSTANTS Family = "%s" Variant = "%s"\nINVARIANTS Exactly Refusal OneSource Typed NoLoss\n%sCHECK_DEADLOCK FALSE\n'
    for f in ("conns", "sims", "signals", "vectors"):
        r = model_check("MCOspConfig", cfg % (f, "", "PROPERTY Ending\n"), "OspConfig " + f, coverage=False)
        rep.model("OspConfig " + f, r)
    for f, v in (("conns", "unknown"), ("conns", "shapes"), ("signals", "first")):
        must_fail("MCOspConfig", cfg % (f, v, ""), "OspConfig %s wrong" % v, "Exactly")
    exe = build("osp", ["osp.cpp"], OSP_SRC)
    suite(rep, "random", exe, "TOspConfig", "SPECIFICATION TSpec\n", ospgen.rnd(SEED, scale(400)), chunk=50)
    suite(rep, "big", exe, "TOspConfig", "SPECIFICATION TSpec\n", ospgen.rnd(SEED, scale(8), big=True))
    suite(rep, "others", exe, "TOspConfig", "SPECIFICATION TSpec\n", vlib.together(ospgen.rnd(SEED + 1, scale(40)), beside=False))


MODELS.update(N02="SspConfig")
SSP_SRC = list(dict.fromkeys(CORE_SRC + OSP_SRC[:-1] + ["utility/zip.cpp", "ssp/ssp_loader.cpp", "ssp/ssp_parser.cpp"]))


@check("N02")
def n02(rep):
    import sspgen
    cfg = 'SPECIFICATION Spec\nCONSTANTS Family = "%s" Variant = "%s"\nINVARIANTS Exactly Refusal OneValue\n%sCHECK_DEADLOCK FALSE\n'
    for f in ("links", "params"):
        r = model_check("MCSspConfig", cfg % (f, "", "PROPERTY Ending\n"), "SspConfig " + f, coverage=False)
        rep.model("SspConfig " + f, r)
    must_fail("MCSspConfig", cfg % ("params", "alldefault", ""), "SspConfig all sets default", "Exactly")
    exe = build("ssp", ["ssp.cpp"], SSP_SRC)
    suite(rep, "random", exe, "TSspConfig", "SPECIFICATION TSpec\n", sspgen.rnd(SEED, scale(400)), chunk=50)
    suite(rep, "big", exe, "TSspConfig", "SPECIFICATION TSpec\n", sspgen.rnd(SEED, scale(8), big=True))
    suite(rep, "others", exe, "TSspConfig", "SPECIFICATION TSpec\n", vlib.together(sspgen.rnd(SEED + 1, scale(40)), beside=False))


MODELS.update(N01="FmiSlave", N03="Importer", N04="ProxyUri")
FMI_SRC = CACHE_SRC + ["orchestration.cpp", "fmi/glue.cpp", "fmi/importer.cpp", "fmi/v1/fmu.cpp", "fmi/v2/fmu.cpp",
                       "proxy/remote_slave.cpp", "proxy/remote_fmu.cpp", "utility/zip.cpp"]


def fmi_exe():
    # FMI Library and proxyfmu are not installed: stand-ins with their interfaces record the calls they get
    return build("fmi", ["fmi.cpp"], FMI_SRC, flags=tuple("-I%s/%s" % (vlib.HARN, d) for d in ("fakefmi", "fakeproxy")) + ("-Wl,--wrap=zip_fread",))


@check("N01")
def n01(rep):
    import fmigen
    cfg = ("SPECIFICATION Spec\nCONSTANTS V = %d Slaves = {1, 2} MaxOps = %d MaxX = 4 Blind = %s Single = %s\n"
           "INVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n")
    for v in (1, 2, 3):
        r = model_check("MCFmiSlave", cfg % (v, scale(8, 11), "FALSE", "FALSE", "Lawful AllAccounted Apart Agree Nothing", "PROPERTY Finishes\n"), "FmiSlave/%d" % v, coverage=False)
        rep.model("FmiSlave/%d" % v, r)
    must_fail("MCFmiSlave", cfg % (2, 7, "TRUE", "FALSE", "Lawful", ""), "FmiSlave ending a failed slave", "Lawful")
    suite(rep, "random", fmi_exe(), "TFmiSlave", "SPECIFICATION TSpec\n", fmigen.rnd(SEED, scale(600)))
    suite(rep, "others", fmi_exe(), "TFmiSlave", "SPECIFICATION TSpec\n", vlib.together(fmigen.rnd(SEED + 1, scale(40)), beside=False))


@check("N04")
def n04(rep):
    import proxygen
    cfg = 'SPECIFICATION Spec\nCONSTANTS Variant = "%s" MaxName = %d\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n'
    r = model_check("MCProxyUri", cfg % ("", scale(1, 2), "Found Only Refused Placed Once AsFile", "PROPERTY Ending\n"), "ProxyUri", coverage=False)
    rep.model("ProxyUri", r)
    must_fail("MCProxyUri", cfg % ("glued", 1, "Found", ""), "ProxyUri gluing texts", "Found")
    exe = build("proxyuri", ["proxyuri.cpp"], CACHE_SRC + ["orchestration.cpp", "proxy/remote_slave.cpp", "proxy/remote_fmu.cpp", "proxy/proxy_uri_sub_resolver.cpp"],
                flags=("-DHAS_PROXYFMU=1", "-I%s/fakeproxy" % vlib.HARN))
    suite(rep, "random", exe, "TProxyUri", "SPECIFICATION TSpec\n", proxygen.rnd(SEED, scale(400)), chunk=40)
    suite(rep, "others", exe, "TProxyUri", "SPECIFICATION TSpec\n", vlib.together(proxygen.rnd(SEED + 1, scale(24)), beside=False))


@check("N03")
def n03(rep):
    import fmigen
    cfg = 'SPECIFICATION Spec\nCONSTANTS Paths = {"p", "q"} Guids = {"g", "h"} Entries = %d Xml = 1 MaxOps = %d Mark = "%s"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
    r = model_check("MCImporter", cfg % (2, scale(7, 9), "last", "Whole OneEach"), "Importer", coverage=False)
    rep.model("Importer", r)
    must_fail("MCImporter", cfg % (2, 5, "xml", "Whole"), "Importer trusting the description", "Whole")
    tc = "SPECIFICATION TSpec\n"
    suite(rep, "crashes", fmi_exe(), "TImporter", tc, fmigen.crashes())
    suite(rep, "random", fmi_exe(), "TImporter", tc, fmigen.importer(SEED, scale(400)))
    suite(rep, "others", fmi_exe(), "TImporter", tc, vlib.together(fmigen.importer(SEED + 1, scale(40)), beside=False))
