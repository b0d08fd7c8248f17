-------------------------------- MODULE TPool -------------------------------
EXTENDS Pool, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<Q, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ Q = InitQ /\ TLCSet(tid, 1)
Match ==
    CASE Line.e = "n"  -> Line.n = N /\ UNCHANGED Q
      [] Line.e = "sb" -> SubmitBegin(Line.k, Line.th)
      [] Line.e = "se" -> SubmitEnd(Line.k)
      [] Line.e = "ts" -> TaskBegin(Line.k, Line.th) /\ (N > 0 => Line.w = 1)
      [] Line.e = "te" -> TaskEnd(Line.k, Line.th)
      [] Line.e = "wb" -> WaitBegin(Line.w)
      [] Line.e = "we" -> WaitEnd(Line.w)
      [] Line.e = "db" -> DestroyBegin
      [] Line.e = "de" -> DestroyEnd      [] Line.e = "stress" -> UNCHANGED Q
      [] OTHER -> FALSE
TNext ==
    \/ l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid
    \/ (Take \/ \E k \in Q.calls : Enqueue(k)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
Progress == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)
Post == PrintT("TRACE_RESULT " \o ToString([k \in 1..Len(Traces) |-> TLCGet(k) - 1]))
=============================================================================
