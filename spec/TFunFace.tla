------------------------------ MODULE TFunFace ------------------------------
(* Trace specification for FunFace.                                             *)
EXTENDS FunFace, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<R, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
View(a) == [v \in Slots |-> a[2 * v[1] + v[2] + 1]]
View4(a) == [ty \in Types |-> a[ty + 1]]
Ty == Line.ty
Match ==
    CASE Line.e = "sim" -> AddSim(Line.d)
      [] Line.e = "dec" -> SetRate(Line.s, Line.d)
      [] Line.e = "fun" -> AddFun
      [] Line.e = "to"  -> ConnectTo(Line.s, <<Ty, Line.at>>, Line.f, <<Ty, Line.in>>)
      [] Line.e = "from" -> ConnectFrom(Line.f, Ty, Line.s, <<Ty, Line.at>>)
      [] Line.e = "begin" -> Begin
      [] Line.e \in {"setup", "start", "step"} -> Call(Line.e, Line.s, View(Line.V), View(Line.O), Line.d)
      [] Line.e = "fs"  -> FunSet(Line.f, <<Ty, Line.in>>, Line.x, Line.g)
      [] Line.e = "fc"  -> FunCalc(Line.f, View(Line.I), View4(Line.O), Line.g)
      [] Line.e = "fg"  -> FunGet(Line.f, Ty, Line.x)
      [] Line.e = "r"   -> Return(Line.f # 0)
      [] OTHER -> FALSE
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ R = InitR
TNext == \/ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Match
         \/ l = Len(Ev) + 1 /\ R.ph \in {"build", "idle", "over"} /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
