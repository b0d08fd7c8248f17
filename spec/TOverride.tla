------------------------------ MODULE TOverride -----------------------------
EXTENDS Override, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<cfg, O, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tid].cfg /\ InitO /\ TLCSet(tid, 1)
ModMap == {<<k[1], k[2], O.mod[k][1], O.mod[k][2]>> : k \in DOMAIN O.mod}
MapIs(q) == {q[k] : k \in DOMAIN q} = ModMap /\ Len(q) = Cardinality(ModMap)
Match ==
    CASE Line.e = "rb" -> ReqBegin(Line.th, [i |-> Line.i, v |-> Line.v, m |-> <<Line.k, Line.x>>])
      [] Line.e = "re" -> ReqEnd(Line.th, Line.ok = 1)
      [] Line.e = "sb" -> StepBegin
      [] Line.e = "se" -> StepEnd /\ MapIs(Line.map)
      [] Line.e = "map" -> O.ph = "idle" /\ MapIs(Line.map) /\ UNCHANGED ovars
      [] OTHER -> FALSE
TNext ==
    \/ l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid
    \/ (Apply \/ \E th \in DOMAIN O.calls : Enqueue(th)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
Progress == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)
Post == PrintT("TRACE_RESULT " \o ToString([k \in 1..Len(Traces) |-> TLCGet(k) - 1]))
=============================================================================
