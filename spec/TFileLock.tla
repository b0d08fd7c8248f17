------------------------------ MODULE TFileLock -----------------------------
(* Calls on file locks by the threads of several processes, as recorded.     *)
EXTENDS FileLock, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<K, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
TProcOf == <<1, 1, 1, 2, 2, 2, 3, 3, 3>>
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ InitK /\ TLCSet(tid, 1)
Match ==
    CASE Line.e = "b" /\ Line.op \in {"X", "S"} -> Ask(Line.t, Line.f, Line.op, TRUE)
      [] Line.e = "b" /\ Line.op = "tX" -> Ask(Line.t, Line.f, "X", FALSE)
      [] Line.e = "b" /\ Line.op = "tS" -> Ask(Line.t, Line.f, "S", FALSE)
      [] Line.e = "b" /\ Line.op = "u" -> Release(Line.t, Line.f)
      [] Line.e = "e" -> IF Line.op = "u" THEN Released(Line.t) ELSE IF Line.ok = 1 THEN Granted(Line.t) ELSE Refused(Line.t)
      [] Line.e = "kb" -> UNCHANGED K
      [] Line.e = "kill" -> Line.p \in K.dead /\ UNCHANGED K
      [] Line.e = "quiet" -> Quiet /\ UNCHANGED K
      [] OTHER -> FALSE
TNext ==
    \/ l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid
    \/ (\E t \in Threads : Internal(t)) /\ UNCHANGED <<tid, l>>
    \* a process dies some time between the events "kb" and "kill"
    \/ l <= Len(Ev) /\ (\E p \in Procs : (\E j \in 1..l - 1 : Ev[j].e = "kb" /\ Ev[j].p = p) /\ Die(p)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
Progress == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)
Post == PrintT("TRACE_RESULT " \o ToString([k \in 1..Len(Traces) |-> TLCGet(k) - 1]))
=============================================================================
