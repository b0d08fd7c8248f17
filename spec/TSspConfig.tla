----------------------------- MODULE TSspConfig ----------------------------
(* Descriptions loaded by the code.                                         *)
EXTENDS SspConfig, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1
\* several descriptions lie side by side; Line.d says which was to be loaded
D == Traces[tid].cfg.ds[Line.d]
Same(s, S) == Range(s) = S /\ Len(s) = Cardinality(S)
Match ==
    /\ Line.e = "load"
    /\ Line.ok = SspWellformed(D)
    /\ Line.ok => \E y \in {SspSystem(D)} :
         /\ Line.start = y.start /\ Line.algo = y.algo
         /\ Same(Line.ents, y.ents) /\ Same(Line.conns, y.conns) /\ Same(Line.lins, y.lins)
         /\ {Line.sets[i].n : i \in DOMAIN Line.sets} = {s[1] : s \in y.sets} /\ Len(Line.sets) = Cardinality(y.sets)
         /\ \A i \in DOMAIN Line.sets : \E s \in y.sets : s[1] = Line.sets[i].n /\ Same(Line.sets[i].v, s[2])
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
