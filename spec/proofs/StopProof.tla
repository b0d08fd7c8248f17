------------------------------ MODULE StopProof ------------------------------
(* For any number of simulators, stoppers and runs, and any targets: a stop   *)
(* that took effect lets at most the step in progress finish, and the result  *)
(* of a run says what ended it.                                               *)
EXTENDS StopSim, TLAPS
CONSTANTS Stoppers, Slots
ASSUME NAssume == NSim \in Nat
Next == \/ \E h \in BOOLEAN, t \in Int : Begin(h, t)
        \/ Enter \/ Commence \/ StepDone \/ Decide \/ Outcome \/ Return(R.res)
        \/ \E x \in Stoppers : StopBegin(x) \/ StopTake(x) \/ StopEnd(x)
        \/ \E i \in Slots : SlaveBegin(i) \/ SlaveEnd(i)
Spec == R = InitR /\ [][Next]_R
Looping == {"loop", "step", "done", "exit"}
TypeOk == R \in [ph : {"idle", "enter", "ret"} \cup Looping, stop : BOOLEAN, now : Int, n : Int, has : BOOLEAN, tgt : Int,
                 pend : SUBSET Stoppers, taken : BOOLEAN, after : Int, idle : Int, busy : SUBSET Slots, res : BOOLEAN]
Inv == /\ TypeOk
       /\ R.after <= 1 /\ (~R.taken => R.after = 0)
       /\ R.ph \in Looping => (R.taken <=> R.stop)
       /\ R.ph = "loop" => R.after = 0
       /\ R.ph = "exit" => (R.stop \/ (R.has /\ R.tgt - R.now <= 0))
       /\ TrueMeansReached /\ FalseMeansStopped
THEOREM Safe == Spec => [](StopHonoured /\ TrueMeansReached /\ FalseMeansStopped)
<1>1. R = InitR => Inv
  BY NAssume DEF InitR, Inv, TypeOk, Looping, TrueMeansReached, FalseMeansStopped
<1>2. Inv /\ [Next]_R => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_R PROVE Inv'
    OBVIOUS
  <2> USE NAssume DEF Inv, TypeOk, Looping, TrueMeansReached, FalseMeansStopped
  <2>1. CASE \E h \in BOOLEAN, t \in Int : Begin(h, t)
    BY <2>1 DEF Begin
  <2>2. CASE Enter
    BY <2>2 DEF Enter
  <2>3. CASE Commence
    BY <2>3 DEF Commence
  <2>4. CASE StepDone
    BY <2>4 DEF StepDone
  <2>5. CASE Decide
    BY <2>5 DEF Decide
  <2>6. CASE Outcome
    BY <2>6 DEF Outcome
  <2>7. CASE Return(R.res)
    BY <2>7 DEF Return
  <2>8. CASE \E x \in Stoppers : StopBegin(x)
    BY <2>8 DEF StopBegin
  <2>9. CASE \E x \in Stoppers : StopTake(x)
    BY <2>9 DEF StopTake
  <2>10. CASE \E x \in Stoppers : StopEnd(x)
    BY <2>10 DEF StopEnd
  <2>11. CASE \E i \in Slots : SlaveBegin(i)
    BY <2>11 DEF SlaveBegin
  <2>12. CASE \E i \in Slots : SlaveEnd(i)
    BY <2>12 DEF SlaveEnd
  <2>13. CASE UNCHANGED R
    BY <2>13
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <2>10, <2>11, <2>12, <2>13 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec, Inv, StopHonoured
=============================================================================
