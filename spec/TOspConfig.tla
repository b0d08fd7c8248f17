----------------------------- MODULE TOspConfig ----------------------------
(* Descriptions loaded by the code.                                         *)
EXTENDS OspConfig, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
D == Traces[tid].cfg
TInit == tid \in 1..Len(Traces) /\ l = 1
Set(s) == {s[i] : i \in DOMAIN s}
Match ==
    /\ Line.e = "load"
    /\ Line.ok = Wellformed(D)
    /\ Line.ok => \E y \in {System(D)} :
         /\ Line.start = y.start /\ Line.stop = y.stop /\ Line.step = y.step
         /\ Set(Line.ents) = y.ents /\ Len(Line.ents) = Cardinality(y.ents)
         /\ Set(Line.conns) = y.conns /\ Len(Line.conns) = Cardinality(y.conns)
         /\ Set(Line.inits) = y.inits /\ Len(Line.inits) = Cardinality(y.inits)
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
