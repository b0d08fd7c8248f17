------------------------------ MODULE TSimFace ------------------------------
(* Trace specification for SimFace; two simulators are used in turn.            *)
EXTENDS SimFace, TLC, Json, IOUtils
VARIABLES tid, l, P, cur
tvars == <<S, tid, l, P, cur>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
B(x) == x = 1
TRefs == 2..4
TOuts == {0, 1, 5}
Var == <<Line.ty, Line.r>>
View(a) == [v \in Vars |-> a[3 * v[1] + v[2] - 1]]
Mod == [k |-> Line.k, c |-> Line.c]
Match ==
    CASE Line.e = "exg"  -> ExposeGet(Var)
      [] Line.e = "exs"  -> ExposeSet(Var, B(Line.ok))
      [] Line.e = "set"  -> Set(Var, Norm(Var, Line.x), B(Line.ok))
      [] Line.e = "get"  -> Get(Var, Line.x, B(Line.ok))
      [] Line.e = "im"   -> InMod(Var, Mod, B(Line.ok))
      [] Line.e = "om"   -> OutMod(Var, Mod)
      [] Line.e = "list" -> Listed({<<Line.m[k] \div 10, Line.m[k] % 10>> : k \in DOMAIN Line.m})
      [] Line.e = "setup" -> Setup
      [] Line.e = "iter" -> Iterate /\ View(Line.V) = S'.V
      [] Line.e = "start" -> StartSim
      [] Line.e = "step" -> Step(Line.dt)
      [] Line.e = "su"   -> Slave("setup", View(Line.V), Line.f) /\ Line.t = Traces[tid].cfg.t /\ Line.stop = Traces[tid].cfg.stop /\ Line.tol = Traces[tid].cfg.tol
      [] Line.e = "ss"   -> Slave("start", View(Line.V), Line.f)
      [] Line.e = "sd"   -> Slave("step", View(Line.V), Line.f) /\ Line.t = Line.want /\ Line.dt = S.dt
      [] Line.e = "r"    -> Return(Line.f) /\ Line.res = Line.want
      [] OTHER -> FALSE
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ P = <<InitS, InitS>> /\ cur = 1 /\ S = InitS
Switch == Line.e = "sw" /\ cur' = Line.w /\ P' = [P EXCEPT ![cur] = S] /\ S' = P'[Line.w]
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ (Switch \/ (Match /\ UNCHANGED <<P, cur>>))
         \/ l = Len(Ev) + 1 /\ Idle /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
