------------------------------ MODULE TFileLog -----------------------------
EXTENDS FileLog, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<cfg, F, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Ok == Line.ok = 1
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tid].cfg /\ InitF
Match ==
    CASE Line.e = "add"  -> Add(Line.i, Ok)
      [] Line.e = "rm"   -> Remove(Line.i)
      [] Line.e = "set"  -> Change(Line.i, Line.v, Line.x)
      [] Line.e = "init" -> Initialized(Line.s, Line.t)
      [] Line.e = "step" -> StepDone(Line.i, Line.s, Line.t)
      [] Line.e = "start" -> Start(Ok)
      [] Line.e = "stop" -> Stop(Ok)
      [] Line.e = "rec"  -> F.rec = Ok /\ UNCHANGED fvars
      \* contents of all files of simulator i, read while nothing is open
      [] Line.e = "files" -> /\ Line.files = (IF Line.i \in DOMAIN F.w THEN F.w[Line.i].files ELSE <<>>)
                             /\ UNCHANGED fvars
      \* variables listed in the metadata of simulator i, one list per session
      [] Line.e = "meta" -> /\ IF Line.i \in DOMAIN F.w
                               THEN /\ Len(Line.meta) = Sessions(Line.i)
                                    /\ \A k \in DOMAIN Line.meta : Line.meta[k] = Tail(Header(Line.i))
                               ELSE Line.meta = <<>>
                            /\ UNCHANGED fvars
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
