------------------------------- MODULE MCStop -------------------------------
EXTENDS StopSim
CONSTANTS Stoppers, MaxNow, Runs
VARIABLES runs, called
vars == <<R, runs, called>>
MInit == R = InitR /\ runs = 0 /\ called = {}
U == UNCHANGED <<runs, called>>
Next ==
    \/ /\ runs < Runs /\ runs' = runs + 1 /\ UNCHANGED called
       /\ \E h \in BOOLEAN, t \in {R.now, R.now + 1, R.now + 2} : (h \/ TRUE) /\ t <= MaxNow /\ Begin(h, t)
    \/ \E x \in Stoppers : x \notin called /\ called' = called \cup {x} /\ UNCHANGED runs /\ StopBegin(x)
    \/ U /\ (Enter \/ (R.now < MaxNow /\ Commence) \/ StepDone \/ Decide \/ Outcome \/ Return(R.res))
    \/ U /\ \E i \in 1..NSim : SlaveBegin(i) \/ SlaveEnd(i)
    \/ U /\ \E x \in Stoppers : StopTake(x)
Fair == WF_vars(U /\ (Enter \/ StepDone \/ Decide \/ Outcome \/ Return(R.res)))
        /\ WF_vars(U /\ Commence /\ R.now < MaxNow)
        /\ WF_vars(U /\ \E i \in 1..NSim : SlaveEnd(i)) /\ WF_vars(U /\ \E i \in 1..NSim : SlaveBegin(i))
Spec == MInit /\ [][Next]_vars /\ Fair
\* a stop that took effect ends the run
StopEnds == R.taken ~> (R.ph = "idle" \/ R.now = MaxNow)
Slots == 1..NSim
=============================================================================
