------------------------------ MODULE TExecAlg ------------------------------
(* Trace specification for ExecAlg; several executions live beside each other.  *)
EXTENDS ExecAlg, TLC, Json, IOUtils
VARIABLES tid, l, W, cur
tvars == <<R, tid, l, W, cur>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
B(x) == x = 1
Set(s) == {s[k] : k \in DOMAIN s}
End(s) == IF Len(s) = 4 THEN <<"s", s[2], s[3], s[4]>> ELSE <<"f", s[2], s[3], s[4], s[5], s[6], s[7]>>
Cb == CASE Line.k = "added" -> CbAdded(Line.i) [] Line.k = "init" -> CbInit [] Line.k = "sim" -> CbSim(Line.i)
        [] Line.k = "step" -> CbStep [] OTHER -> CbCommence
Match ==
    CASE Line.e = "new" -> New(Line.t)
      [] Line.e = "as"  -> AlgSetup(Line.t, B(Line.has))
      [] Line.e = "addsim" -> AddSim(Line.h)
      [] Line.e = "aas" -> AlgAddSim(Line.i, Line.h) /\ Line.nm = Line.i
      [] Line.e = "addfun" -> AddFun
      [] Line.e = "aaf" -> AlgAddFun(Line.i) /\ Line.nm = Line.i
      [] Line.e = "addobs" -> AddObs
      [] Line.e = "addman" -> AddMan
      [] Line.e = "conn" -> Connect(End(Line.o), End(Line.i))
      [] Line.e = "ac"  -> AlgConnect(End(Line.o), End(Line.i), Line.f)
      [] Line.e = "iv"  -> InitialValue
      [] Line.e = "md"  -> Describe(Line.i)
      [] Line.e = "mv"  -> Move
      [] Line.e = "step" -> Step
      [] Line.e = "until" -> Until(B(Line.has), Line.t)
      [] Line.e = "ai"  -> AlgInit(Line.f)
      [] Line.e = "ad"  -> AlgStep(Line.t, B(Line.run), Line.dt, Set(Line.fin), B(Line.stop), Line.f) /\ Line.ct = R.now
      [] Line.e = "o"   -> ObsCb(Line.x, Cb, Line.n, Line.dt, Line.t) /\ Line.ct = R.now /\ (Line.k = "added" => Line.nm = Line.i)
      [] Line.e = "m"   -> ManCb(Line.x, Cb, Line.t) /\ Line.ct = R.now /\ (Line.k = "added" => Line.nm = Line.i)
      [] Line.e = "r"   -> Return(Line.f, Line.v, Line.t) /\ B(Line.run) = FALSE
      [] OTHER -> FALSE
\* StepOver is taken at once when it can be
Settled == ~(R.ph = "done" /\ Quiet)
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ W = <<InitR, InitR>> /\ cur = 1 /\ R = InitR
Switch == Line.e = "sw" /\ cur' = Line.w /\ W' = [W EXCEPT ![cur] = R] /\ R' = W'[Line.w]
TNext == \/ ~Settled /\ StepOver /\ UNCHANGED <<tid, l, W, cur>>
         \/ /\ Settled /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
            /\ (Switch \/ (Match /\ UNCHANGED <<W, cur>>))
         \/ Settled /\ l = Len(Ev) + 1 /\ R.ph = "idle" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
