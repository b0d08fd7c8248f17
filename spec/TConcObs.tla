------------------------------ MODULE TConcObs ------------------------------
EXTENDS ConcObs, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<cfg, C, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tid].cfg /\ InitC
Match ==
    CASE Line.e = "sb" -> NoteBegin(Line.i, Line.k)
      [] Line.e = "se" -> NoteEnd(Line.i, Line.k)
      [] Line.e = "qb" -> QueryBegin(Line.th)
      [] Line.e = "ql" -> LastOK(Line.th, Line.i, Line.x) /\ QueryEnd(Line.th)
      [] Line.e = "qs" -> SeriesOK(Line.th, Line.i, Line.from, Line.max, Line.s, Line.t, Line.x) /\ QueryEnd(Line.th)
      [] Line.e = "ts" -> StartMine(Line.th, Line.i)
      [] Line.e = "tp" -> StopMine(Line.th, Line.i)
      [] Line.e = "qm" -> MineOK(Line.th, Line.i, Line.from, Line.max, Line.ok, Line.s, Line.t, Line.x) /\ QueryEnd(Line.th)
      [] Line.e = "qy" -> SyncOK(Line.th, Line.i, Line.j, Line.from, Line.max, Line.x, Line.y) /\ QueryEnd(Line.th)
      [] Line.e = "qd" -> StepsOK(Line.th, Line.i, Line.d, Line.s) /\ QueryEnd(Line.th)
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
