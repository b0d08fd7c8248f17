------------------------------ MODULE TCosim -------------------------------
(***************************************************************************)
(* Trace validation: every recorded run of the real library must be a       *)
(* behaviour of Cosim.  One initial state per recorded trace; each line of   *)
(* a trace is matched with one action of Cosim, whose state is compared      *)
(* with what was recorded.  A line that no action explains is a deadlock.    *)
(* Aspects selects which recorded values are compared.                       *)
(***************************************************************************)
EXTENDS Cosim, Json, IOUtils
CONSTANT Aspects
VARIABLES tid, l
tvars == <<cfg, S, tid, l>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Chk(a, c) == (a \in Aspects) => c
Bool(x) == x = 1

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ cfg = Traces[tid].cfg
         /\ S = InitS

ObsVals(o) == [k \in DOMAIN cfg.obs[S.obs[o]].vars |->
                 LET p == cfg.obs[S.obs[o]].vars[k] IN
                 IF p[1] \in DOMAIN S.sims THEN S.sims[p[1]].gm[p[2]] ELSE 0]
ModPairs == UNION {{<<i, v>> : v \in S.sims[i].mset} : i \in DOMAIN S.sims}
SetOf(q) == {q[k] : k \in DOMAIN q}

\* atomic operations
TOp ==
    /\ Line.e = "x"
    /\ CASE Line.k = "addfun" -> AddFun(Line.i)
         [] Line.k = "ss"   -> ConnectSS(Line.i, Line.v, Line.j, Line.w, Bool(Line.ok))
         [] Line.k = "sf"   -> ConnectSF(Line.i, Line.v, Line.j, Line.r, Bool(Line.ok))
         [] Line.k = "fs"   -> ConnectFS(Line.i, Line.r, Line.j, Line.w, Bool(Line.ok))
         [] Line.k = "disc" -> DisconnectVar(Line.i, Line.v)
         [] Line.k = "discf" -> DisconnectFun(Line.i, Line.r)
         [] Line.k = "rmsim" -> RemoveSim(Line.i)
         [] Line.k = "dec"  -> SetDecimation(Line.i, Line.v, Bool(Line.ok))
         [] Line.k = "init" -> InitValue(Line.i, Line.v, Line.x, Bool(Line.ok))
         [] Line.k = "req"  -> Request(Line.m, Line.i, Line.v, [k |-> Line.mk, a |-> Line.ma], Bool(Line.ok))
         [] Line.k = "mods" -> /\ Chk("mods", SetOf(Line.mods) = ModPairs /\ Len(Line.mods) = Cardinality(ModPairs))
                               /\ UNCHANGED cvars
         [] OTHER -> FALSE
TBegin ==
    /\ Line.e = "b"
    /\ CASE Line.k = "addsim" -> AddSim(Line.i)
         [] Line.k = "addobs" -> AddObs(Line.i)
         [] Line.k = "addman" -> AddMan(Line.i)
         [] Line.k = "step"   -> StepBegin
         [] Line.k = "until"  -> UntilBegin(Bool(Line.has), Line.t)
         [] OTHER -> FALSE
TRet ==
    /\ Line.e = "r"
    /\ Chk("time", Line.t = S.now)
    /\ Chk("run", Line.run = 0)
    /\ IF S.mode \in {"step", "until"}
       THEN /\ Chk("fail", Bool(Line.ok) = (S.failed = {}))
            /\ Chk("fail", SetOf(Line.bad) = S.failed)
            /\ (S.failed = {} /\ S.mode = "step") => Chk("time", Line.dur = cfg.base)
            /\ (S.failed = {} /\ S.mode = "until") => Chk("until", Bool(Line.res) = ~S.stop)
       ELSE /\ Bool(Line.ok)
            /\ Chk("notify", Line.idx = -1 \/ Line.idx = Len(S.sims))
    /\ OpEnd
TSlave ==
    /\ Line.e = "s"
    /\ LET i == Line.i IN
       CASE Line.k = "setup" /\ Line.b = 1 -> SetupBegin(i) /\ Chk("sched", Line.t = cfg.start)
         [] Line.k = "setup" /\ Line.b = 0 -> SetupEnd(i)
         [] Line.k = "start" /\ Line.b = 1 -> StartBegin(i) /\ Chk("initvals", Line.vals = S'.sims[i].sv)
         [] Line.k = "start" /\ Line.b = 0 -> StartEnd(i)
         [] Line.k = "step" /\ Line.b = 1 -> /\ DoStepBegin(i)
                                             /\ Chk("sched", Line.t = S.now /\ Line.dt = StepDt(i))
                                             /\ Chk("vals", Line.vals = S'.sims[i].sv)
         [] Line.k = "step" /\ Line.b = 0 -> DoStepEnd(i)
         [] Line.k = "set" -> SetFails(i)
         [] OTHER -> FALSE
TCb ==
    /\ Line.e = "c"
    /\ CASE Line.k = "oadd" -> CbObsAdded(Line.o, Line.i) /\ Chk("notify", Line.t = S.now)
         [] Line.k = "madd" -> CbManAdded(Line.o, Line.i) /\ Chk("notify", Line.t = S.now)
         [] Line.k = "oinit" -> /\ CbObsInit(Line.o) /\ Chk("notify", Line.t = S.now /\ Line.n = S.last)
                                /\ Chk("ovals", Line.vals = ObsVals(Line.o))
         [] Line.k = "mstep" -> /\ (IF Line.adds > 0 THEN CbManStepAdds(Line.o, Line.adds) ELSE CbManStep(Line.o))
                                /\ Chk("notify", Line.t = S.now)
         [] Line.k = "osim" -> /\ CbObsSim(Line.o, Line.i)
                               /\ Chk("notify", Line.t = S.now /\ Line.n = S.last /\ Line.dt = cfg.base)
                               /\ Chk("ovals", Line.vals = ObsVals(Line.o))
         [] Line.k = "ostep" -> /\ Chk("run", ~S.stop => (Bool(Line.run) = (S.mode = "until")))
                                /\ Chk("notify", Line.t = S.now /\ Line.n = S.last /\ Line.dt = cfg.base)
                                /\ Chk("ovals", Line.vals = ObsVals(Line.o))
                                /\ CbObsStep(Line.o, Bool(Line.stops))
         [] OTHER -> FALSE
TRetry ==
    \/ Line.e = "retry" /\ Retry
    \/ S.ph = "retry" /\ Line.e = "s" /\ Line.k = "step" /\ Line.b = 1
       /\ RetryBegin(Line.i, Line.dt) /\ Chk("retry", Line.vals = S'.sims[Line.i].sv)
    \/ S.ph = "retry" /\ Line.e = "s" /\ Line.k = "step" /\ Line.b = 0 /\ RetryEnd(Line.i)
    \/ S.ph = "retry" /\ Line.e \in {"c", "r"} /\ UNCHANGED cvars
TNext ==
    \/ /\ l <= Len(Ev) /\ (TOp \/ TBegin \/ TRet \/ TSlave \/ TCb \/ TRetry)
       /\ l' = l + 1 /\ UNCHANGED tid
    \/ l = Len(Ev) + 1 /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
