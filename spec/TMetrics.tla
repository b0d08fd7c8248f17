------------------------------ MODULE TMetrics -------------------------------
EXTENDS Metrics, Sequences, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<P, M, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Bool(x) == x = 1
Set(e) == [on |-> Bool(e.on), fn |-> e.fn, fd |-> e.fd, mn |-> e.mn, ms |-> e.ms]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ P = InitP(Set(Traces[tid].cfg)) /\ M = InitM /\ TLCSet(tid, 1)
(* A metric is reported as hundredths of wall-clock ticks per unit of simulated
   time, rounded; -1 stands for the factor 0.  Clock readings are rounded down. *)
Agrees(g, m) ==
    IF m.sim < 0 THEN g = 100 * Unit                    \* the factor is 1
    ELSE IF m.sim = 0 THEN g = -1                       \* a window without simulated time
    ELSE g >= 0 /\ (g + 1) * m.sim >= (m.lo - 2) * 100 /\ (g - 1) * m.sim <= (m.hi + 2) * 100
Judge == Agrees(Line.tg, M'.tot) /\ Agrees(Line.rg, M'.roll)
Next(again) ==
    /\ Resume(Line.w, again)
    /\ \E full \in BOOLEAN : Compute(At(P.w, Line.w + 1), full)
    /\ Judge
Match ==
    CASE Line.e = "run"  -> RunBegin(Line.w) /\ MRunBegin(Line.w)
      [] Line.e = "cfg"  -> Configure(Set(Line), Line.w) /\ UNCHANGED M
      [] Line.e = "o"    -> StepEnd(Line.dt, Line.w) /\ MStepEnd
      \* the first commencement of a run follows RunBegin directly
      [] Line.e = "m"    -> IF P.ph = "step" THEN MFirst(Line.w + 1) /\ UNCHANGED P /\ Judge ELSE Next(TRUE)
      [] Line.e = "r"    -> Next(FALSE)
      [] OTHER -> FALSE
TNext == l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid
TSpec == TInit /\ [][TNext]_tvars
Progress == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)
Post == PrintT("TRACE_RESULT " \o ToString([k \in 1..Len(Traces) |-> TLCGet(k) - 1]))
=============================================================================
