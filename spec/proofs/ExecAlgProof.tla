---------------------------- MODULE ExecAlgProof ----------------------------
(* For any algorithm, any number of entities, steps of any length and any      *)
(* failures: the algorithm is called lawfully, execution and algorithm agree   *)
(* on time, steps and connections, and no input has two sources.               *)
EXTENDS ExecAlg, TLAPS
Next == \/ \E t \in Int : New(t)
        \/ \E t \in Int, has \in BOOLEAN : AlgSetup(t, has)
        \/ \E h \in Int : AddSim(h)
        \/ \E i, h \in Int : AlgAddSim(i, h)
        \/ AddFun \/ (\E i \in Int : AlgAddFun(i)) \/ AddObs \/ AddMan
        \/ \E o, i : Connect(o, i)
        \/ \E o, i : \E f \in Int : AlgConnect(o, i, f)
        \/ InitialValue \/ (\E i \in Int : Describe(i)) \/ Move \/ Step
        \/ \E has \in BOOLEAN, t \in Int : Until(has, t)
        \/ \E f \in Int : AlgInit(f)
        \/ \E t, dt, f \in Int, run, stop \in BOOLEAN : \E fin : AlgStep(t, run, dt, fin, stop, f)
        \/ StepOver
        \/ \E o, c, n, dt, t : ObsCb(o, c, n, dt, t)
        \/ \E m, c, t : ManCb(m, c, t)
        \/ \E f, v, t : Return(f, v, t)
Spec == R = InitR /\ [][Next]_R
IsRec == /\ R = [op |-> R.op, ph |-> R.ph, now |-> R.now, n |-> R.n, init |-> R.init, sims |-> R.sims, funs |-> R.funs, conns |-> R.conns,
                 obs |-> R.obs, mans |-> R.mans, dt |-> R.dt, stop |-> R.stop, fail |-> R.fail, A |-> R.A]
         /\ R.A = [setup |-> R.A.setup, start |-> R.A.start, init |-> R.A.init, at |-> R.A.at, steps |-> R.A.steps,
                   sims |-> R.A.sims, funs |-> R.A.funs, conns |-> R.A.conns]
         /\ R.n \in Nat /\ R.now \in Int
         /\ R.ph \in {"none", "new", "idle", "alg", "init", "step", "done", "ret"}
Inv == /\ IsRec
       /\ R.A.steps = R.n /\ R.A.init = R.init /\ R.A.conns = R.conns
       /\ R.ph \in {"none", "new"} => ~R.init /\ R.n = 0
       /\ R.ph \notin {"none", "new"} => R.A.setup /\ R.A.at = R.now
       /\ R.ph \in {"step", "done"} => R.init
       /\ R.n > 0 => R.init
       /\ (R.ph = "alg" /\ R.op.k = "conn") => \A c \in R.conns : c[2] # R.op.i
       /\ OneSource
AgreeOnConns == R.A.conns = R.conns
THEOREM Safe == Spec => [](Lawful /\ OneSource /\ AgreeOnConns)
<1>1. R = InitR => Inv
  <2> SUFFICES ASSUME R = InitR PROVE Inv
    OBVIOUS
  <2>1. R.A = InitA /\ R.ph = "none" /\ R.n = 0 /\ R.now = 0 /\ R.init = FALSE /\ R.conns = {}
    BY DEF InitR
  <2>2. InitA.steps = 0 /\ InitA.init = FALSE /\ InitA.conns = {}
    BY DEF InitA
  <2>3. R = [op |-> R.op, ph |-> R.ph, now |-> R.now, n |-> R.n, init |-> R.init, sims |-> R.sims, funs |-> R.funs, conns |-> R.conns,
             obs |-> R.obs, mans |-> R.mans, dt |-> R.dt, stop |-> R.stop, fail |-> R.fail, A |-> R.A]
    BY DEF InitR
  <2>4. R.A = [setup |-> R.A.setup, start |-> R.A.start, init |-> R.A.init, at |-> R.A.at, steps |-> R.A.steps,
               sims |-> R.A.sims, funs |-> R.A.funs, conns |-> R.A.conns]
    BY <2>1 DEF InitA
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF Inv, IsRec, OneSource
<1>2. Inv /\ [Next]_R => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_R PROVE Inv'
    OBVIOUS
  <2> USE DEF Inv, IsRec, OneSource, Idle
  <2>1. CASE \E t \in Int : New(t)
    BY <2>1 DEF New
  <2>2. CASE \E t \in Int, has \in BOOLEAN : AlgSetup(t, has)
    BY <2>2 DEF AlgSetup
  <2>3. CASE \E h \in Int : AddSim(h)
    BY <2>3 DEF AddSim
  <2>4. CASE \E i, h \in Int : AlgAddSim(i, h)
    BY <2>4 DEF AlgAddSim
  <2>5. CASE AddFun \/ (\E i \in Int : AlgAddFun(i))
    BY <2>5 DEF AddFun, AlgAddFun
  <2>6. CASE AddObs \/ AddMan
    BY <2>6 DEF AddObs, AddMan
  <2>7. CASE \E o, i : Connect(o, i)
    BY <2>7 DEF Connect, Legal
  <2>8. CASE \E o, i : \E f \in Int : AlgConnect(o, i, f)
    BY <2>8 DEF AlgConnect
  <2>9. CASE InitialValue \/ (\E i \in Int : Describe(i)) \/ Move
    BY <2>9 DEF InitialValue, Describe, Move
  <2>10. CASE Step
    BY <2>10 DEF Step, Begin, Commencing
  <2>11. CASE \E has \in BOOLEAN, t \in Int : Until(has, t)
    BY <2>11 DEF Until, Begin, Commencing
  <2>12. CASE \E f \in Int : AlgInit(f)
    BY <2>12 DEF AlgInit, Commencing
  <2>13. CASE \E t, dt, f \in Int, run, stop \in BOOLEAN : \E fin : AlgStep(t, run, dt, fin, stop, f)
    BY <2>13 DEF AlgStep
  <2>14. CASE StepOver
    BY <2>14 DEF StepOver, Commencing
  <2>15. CASE \E o, c, n, dt, t : ObsCb(o, c, n, dt, t)
    BY <2>15 DEF ObsCb
  <2>16. CASE \E m, c, t : ManCb(m, c, t)
    BY <2>16 DEF ManCb
  <2>17. CASE \E f, v, t : Return(f, v, t)
    BY <2>17 DEF Return
  <2>18. CASE UNCHANGED R
    BY <2>18
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <2>10, <2>11, <2>12, <2>13, <2>14, <2>15, <2>16, <2>17, <2>18 DEF Next
<1>3. Inv => Lawful /\ OneSource /\ AgreeOnConns
  BY DEF Inv, IsRec, Lawful, OneSource, AgreeOnConns
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
