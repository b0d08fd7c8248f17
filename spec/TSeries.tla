------------------------------- MODULE TSeries ------------------------------
EXTENDS Series, Json, IOUtils, TLC
CONSTANT Aspects
VARIABLES tid, l
tvars == <<cfg, D, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Chk(a, c) == (a \in Aspects) => c
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tid].cfg /\ InitD
Same == UNCHANGED dvars
Ok == Line.ok = 1
QLast ==
    /\ Same
    /\ Chk("last", /\ Ok = (Line.i \in DOMAIN D.sims /\ Line.bad = 0)
                   /\ (Ok /\ D.sims[Line.i].has) => Line.x = Last(Line.i, Line.v))
QSamples ==
    /\ Same
    /\ Chk("series",
        IF Line.i \notin DOMAIN D.sims THEN ~Ok
        ELSE IF ~Observed(Line.i, Line.v) THEN Ok /\ Line.n = 0
        ELSE IF D.sims[Line.i].ser[Line.v] = <<>> THEN ~Ok
        ELSE LET q == Samples(Line.i, Line.v, Line.from, Line.max) IN
             /\ Ok /\ Line.n = Len(q)
             /\ Line.s = [k \in DOMAIN q |-> q[k].s]
             /\ Line.t = [k \in DOMAIN q |-> q[k].t]
             /\ Line.x = [k \in DOMAIN q |-> q[k].x])
QSync ==
    /\ Same
    /\ Chk("sync",
        IF ~Observed(Line.i, Line.v) \/ ~Observed(Line.j, Line.w) THEN ~Ok
        ELSE IF D.sims[Line.i].ser[Line.v] = <<>> \/ D.sims[Line.j].ser[Line.w] = <<>> THEN ~Ok
        ELSE LET q == Sync(Line.i, Line.v, Line.j, Line.w, Line.from, Line.max) IN
             /\ Ok /\ Line.n = Len(q)
             /\ Line.x = [k \in DOMAIN q |-> q[k][1]]
             /\ Line.y = [k \in DOMAIN q |-> q[k][2]])
QRange ==
    /\ Same
    /\ Chk("series",
        IF Line.i \notin DOMAIN D.sims THEN ~Ok
        ELSE Ok /\ (D.sims[Line.i].late \/ Line.s = Range(Line.i, Line.a, Line.b)))
QDur ==
    /\ Same
    /\ Chk("series",
        IF Line.i \notin DOMAIN D.sims THEN ~Ok
        ELSE Ok /\ (D.sims[Line.i].late \/ Line.s = LastFor(Line.i, Line.d)))
Match ==
    CASE Line.e = "add"  -> Add(Line.i, Line.t)
      [] Line.e = "rm"   -> Remove(Line.i)
      [] Line.e = "set"  -> Change(Line.i, Line.v, Line.x)
      [] Line.e = "init" -> Initialized(Line.s, Line.t)
      [] Line.e = "step" -> StepDone(Line.i, Line.s, Line.t)
      [] Line.e = "start" -> Start(Line.i, Line.v, Ok)
      [] Line.e = "stop" -> Stop(Line.i, Line.v, Ok)
      [] Line.e = "ql"   -> QLast
      [] Line.e = "qs"   -> QSamples
      [] Line.e = "qy"   -> QSync
      [] Line.e = "qr"   -> QRange
      [] Line.e = "qd"   -> QDur
      \* an observer keeps at least one sample
      [] Line.e = "small" -> Same /\ Ok = (Line.n >= 1)
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
