------------------------------ MODULE TScenario -----------------------------
EXTENDS Scenario, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<cfg, Z, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tid].cfg /\ InitZ
Mods(z) == {<<k[1], k[2], z.mod[k][1], z.mod[k][2]>> : k \in DOMAIN z.mod}
Seen == /\ {Line.map[k] : k \in DOMAIN Line.map} = Mods(Z') /\ Len(Line.map) = Cardinality(Mods(Z'))
        /\ (Line.run = 1) = Z'.run
Match ==
    CASE Line.e = "load" -> Load(cfg.lists[Line.k].ev, cfg.lists[Line.k].end, Line.t) /\ Seen
      [] Line.e = "file" -> LoadFile(cfg.docs[Line.k], Line.t, Line.ok = 1) /\ Seen
      [] Line.e = "abort" -> Abort /\ Seen
      [] Line.e = "step" -> Step(Line.t) /\ Seen
      [] Line.e = "other" -> Other(Line.i, Line.v, Line.m) /\ Seen
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
