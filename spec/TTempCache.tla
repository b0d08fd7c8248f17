------------------------------ MODULE TTempCache -----------------------------
EXTENDS TempCache, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<C, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Root == Ev[1].root
Pairs(q) == {q[i] : i \in 1..Len(q)}
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ InitC
Match ==
    CASE Line.e = "new" -> l = 1 /\ UNCHANGED C
      [] Line.e = "rw" -> GetRw(Line.k, Line.h, Line.ok = 1, Line.p, Root) /\ (Line.ok = 1 => Line.isdir = 1)
      [] Line.e = "ro" -> GetRo(Line.k, Line.h, Line.ok = 1, Line.p, Root) /\ (Line.ok = 1 => Line.isdir = 1)
      [] Line.e = "release" -> Release(Line.h)
      [] Line.e = "write" -> Write(Line.h, Line.f, Line.v)
      [] Line.e = "read" -> Read(Line.h, Pairs(Line.files)) /\ Len(Line.files) = Cardinality(Pairs(Line.files))
      [] Line.e = "move" -> UNCHANGED C
      [] Line.e = "destroy" -> Destroy
      [] Line.e = "left" -> Left(Line.n)
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
