----------------------------- MODULE TFileCache -----------------------------
(* Calls on persistent file caches by the threads of several processes.      *)
EXTENDS FileCache, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<P, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
TProcOf == <<1, 1, 1, 2, 2, 2, 3, 3, 3>>
TKeys == 0..7
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ InitP
Match ==
    CASE Line.e = "ask" -> Ask(Line.t, Line.k, Line.m)
      [] Line.e = "grant" -> Line.ex = 1 /\ Grant(Line.t, Line.h, Line.pa)
      [] Line.e = "refuse" -> Refuse(Line.t)
      [] Line.e = "rb" -> ReleaseBegin(Line.h)
      [] Line.e = "re" -> ReleaseEnd(Line.h)
      [] Line.e = "wb" -> WriteBegin(Line.h, Line.v)
      [] Line.e = "we" -> WriteEnd(Line.h, Line.v)
      [] Line.e = "rd" -> Read(Line.h, Line.v, Line.ex = 1)
      [] Line.e = "cb" -> CleanBegin(Line.t)
      [] Line.e = "ce" -> CleanEnd(Line.t)
      [] Line.e = "found" -> Found({Line.d[i] : i \in 1..Len(Line.d)})
      [] Line.e = "quiet" -> Stuck /\ UNCHANGED P
      [] Line.e = "kb" -> KillBegin(Line.p)
      [] Line.e = "kill" -> KillEnd(Line.p)
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
