------------------------------- MODULE TStop --------------------------------
(* Trace specification for StopSim.  Silent actions make it branching: a trace *)
(* is accepted iff some branch reaches its end.                                *)
EXTENDS StopSim, Sequences, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<R, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Bool(x) == x = 1
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ R = InitR /\ TLCSet(tid, 1)
Match ==
    CASE Line.e = "b"  -> Begin(Bool(Line.has), Line.t)
      [] Line.e = "m"  -> Commence /\ Line.t = R.now
      [] Line.e = "sb" -> SlaveBegin(Line.i) /\ Line.t = R.now
      [] Line.e = "se" -> SlaveEnd(Line.i)
      [] Line.e = "o"  -> StepDone /\ Line.t = R'.now /\ Line.n = R'.n /\ Bool(Line.run) = ~R.stop
      [] Line.e = "xb" -> StopBegin(Line.x)
      [] Line.e = "xe" -> StopEnd(Line.x)
      [] Line.e = "r"  -> Return(Bool(Line.res)) /\ Line.t = R.now /\ Bool(Line.run) = ~R.stop      [] OTHER -> FALSE
TNext ==
    \/ l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid
    \/ (Enter \/ Decide \/ Outcome \/ \E x \in R.pend : StopTake(x)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
Progress == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)
Post == PrintT("TRACE_RESULT " \o ToString([k \in 1..Len(Traces) |-> TLCGet(k) - 1]))
=============================================================================
