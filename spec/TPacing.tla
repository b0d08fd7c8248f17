------------------------------ MODULE TPacing -------------------------------
EXTENDS Pacing, Sequences, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<P, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Bool(x) == x = 1
Set(e) == [on |-> Bool(e.on), fn |-> e.fn, fd |-> e.fd]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ P = InitP(Set(Traces[tid].cfg))
Match ==
    CASE Line.e = "run"  -> RunBegin(Line.w)
      [] Line.e = "cfg"  -> Configure(Set(Line), Line.w)
      [] Line.e = "o"    -> StepEnd(Line.dt, Line.w)
      \* the first commencement of a run follows RunBegin directly
      [] Line.e = "m"    -> IF P.ph = "step" THEN UNCHANGED P ELSE Resume(Line.w, TRUE)
      [] Line.e = "r"    -> Resume(Line.w, FALSE)      [] OTHER -> FALSE
TNext == \/ l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid
         \/ l = Len(Ev) + 1 /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
