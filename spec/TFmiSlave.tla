------------------------------ MODULE TFmiSlave ------------------------------
(* Recorded runs of the slaves against stand-ins of FMI Library / proxyfmu.  *)
EXTENDS FmiSlave, TLC, Json, IOUtils
VARIABLES tid, l, a
tvars == <<F, tid, l, a>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
D == Traces[tid].cfg
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ FInit /\ a = <<>>
\* a: the operation's arguments; for a slave made by FMI 1, what its setup said
No == IF Line.op = "load" THEN (IF D.v = 3 THEN (IF D.parse = 1 THEN "" ELSE "other") ELSE "")
      ELSE IF Line.op = "inst" /\ D.v # 3 /\ Line.name = "" THEN "invalid"
      ELSE IF Line.op = "inst" /\ D.v # 3 /\ D.single = 1 /\ F.s # <<>> THEN "unsupported"
      ELSE IF Line.op \in {"getx", "setx"} THEN "invalid" ELSE ""
Args(f) ==
    LET g == a[0] IN
    CASE f = "instantiate" -> Line.name = g.name /\ Line.flag = 1
      [] f = "create" -> Line.flag = 1
      [] f = "setup_experiment" -> /\ Line.start = g.start /\ Line.stop = g.stop
                                   /\ Line.tol = IF D.v = 3 /\ g.tol = -1 THEN 0 ELSE g.tol
      [] f = "initialize" -> LET q == a[F.p.h] IN Line.start = q.start /\ Line.stop = q.stop
      [] f = "do_step" -> Line.t = g.t /\ Line.dt = g.dt /\ Line.sum = 1 /\ Line.flag = 1
      [] f = "get" -> Line.type = g.type /\ Line.vr = g.vr
      [] f = "set" -> Line.type = g.type /\ Line.vr = g.vr /\ Line.vals = g.vals
      [] OTHER -> TRUE
Same(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
\* a load: the description is not of a co-simulation FMU
LoadCalls == /\ F.p.op = "load" /\ D.kind = 0 /\ D.v # 3 /\ F.p.f = "xml" /\ F.p.st = 0 /\ F.p.todo = <<>>
             /\ Line.e = "call" /\ Line.f = "free_xml" /\ Line.x = F.p.x
             /\ F' = [F EXCEPT !.x = FDel(@, Line.x), !.p.no = "unsupported"]
Got(i) == IF a[0].vals[i] < 0 THEN 0 ELSE a[0].vals[i]
Match ==
    CASE Line.e = "begin" ->
            /\ Begin(D.v, Line.op, Line.h, IF Line.op \in {"get", "set"} THEN Line.vr = <<>> ELSE FALSE, No)
            /\ a' = IF Line.op = "setup" THEN FPut(FPut(a, 0, Line), Line.h, Line) ELSE FPut(a, 0, Line)
      [] Line.e = "call" ->
            /\ UNCHANGED a
            /\ \/ Call(D.v, Line.f, Line.x, Line.st, Line.lg) /\ Args(Line.f)
               \/ LoadCalls
      [] Line.e = "end" ->
            /\ UNCHANGED a
            /\ End(D.v, Line.r)
            /\ (F.p.op = "load" /\ D.kind = 0 /\ D.v # 3) => Line.r # "ok"
            /\ (F.p.op = "load" /\ Line.r = "ok") =>
                  /\ <<Line.name, Line.guid, Line.desc, Line.author>> = <<D.name, D.guid, D.desc, D.author>>
                  /\ D.v # 3 => Line.ver = D.ver
                  /\ Same(Line.vars, Described(D.v, D.vars))
            /\ (F.p.op = "get" /\ Line.r = "ok") =>
                  /\ Len(Line.got) = Len(a[0].vr) /\ \A i \in DOMAIN Line.got : Line.got[i] = Got(i)
            \* the failure is told in the FMU's words
            /\ (Line.r \in {"model", "badval"} /\ D.v # 3 /\ F.p.lg # 0) => Line.msg = F.p.lg
      [] Line.e = "over" ->
            /\ UNCHANGED <<F, a>>
            /\ F.p = <<>> /\ Line.live = Cardinality(DOMAIN F.x)
            /\ (F.s = <<>> /\ ~F.held) => Line.live = 0
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
