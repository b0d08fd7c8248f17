------------------------------ MODULE ExecAlg -------------------------------
(* The execution as the driver of an arbitrary co-simulation algorithm: the     *)
(* algorithm chooses the length of every step and which simulators have         *)
(* finished one, and may fail at any of its functions.                          *)
(*                                                                              *)
(* The callbacks owed to an observer or a manipulator are a set with stages;    *)
(* one may be made when none of an earlier stage is left.  Nothing is said      *)
(* about the order between different observers or manipulators.                 *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLE R

NoOp == [k |-> "none"]
\* what has happened to the algorithm so far
InitA == [setup |-> FALSE, start |-> 0, init |-> FALSE, at |-> 0, steps |-> 0, sims |-> {}, funs |-> {}, conns |-> {}]
InitR == [op |-> NoOp, ph |-> "none", now |-> 0, n |-> 0, init |-> FALSE, sims |-> 0, funs |-> 0, conns |-> {},
          obs |-> <<>>, mans |-> <<>>, dt |-> 0, stop |-> FALSE, fail |-> 0, A |-> InitA]

Idle == R.ph = "idle"
Quiet == (\A o \in DOMAIN R.obs : R.obs[o] = {}) /\ (\A m \in DOMAIN R.mans : R.mans[m] = {})
Owe(f, S) == [x \in DOMAIN f |-> f[x] \cup S]
CbAdded(i) == [k |-> "added", i |-> i, st |-> 1]
CbInit == [k |-> "init", i |-> -1, st |-> 2]
CbSim(i) == [k |-> "sim", i |-> i, st |-> 3]
CbStep == [k |-> "step", i |-> -1, st |-> 4]
CbCommence == [k |-> "commence", i |-> -1, st |-> 3]
Due(S, c) == c \in S /\ \A d \in S : d.st >= c.st

(* ---- connections ---- *)
\* <<"s", simulator, type, reference>> or <<"f", function, type, group, group instance, io, io instance>>
Real == 0
Integer == 1
IsOut(e) == IF e[1] = "s" THEN e[2] \in 0..(R.sims - 1) /\ e[3] \in {Real, Integer} /\ e[4] \in {0, 1}
            ELSE e[2] \in 0..(R.funs - 1) /\ e[3] = Real /\ e[4] = 0 /\ e[5] \in {0, 1} /\ e[6] = 1 /\ e[7] = 0
IsIn(e) == IF e[1] = "s" THEN e[2] \in 0..(R.sims - 1) /\ e[3] \in {Real, Integer} /\ e[4] \in {2, 3}
           ELSE e[2] \in 0..(R.funs - 1) /\ e[3] = Real /\ e[4] = 0 /\ e[5] \in {0, 1} /\ e[6] = 0 /\ e[7] \in {0, 1}
Legal(o, i) == IsOut(o) /\ IsIn(i) /\ o[3] = i[3] /\ \A c \in R.conns : c[2] # i

(* ---- operations ---- *)
New(t) == /\ R.ph = "none"
          /\ R' = [R EXCEPT !.ph = "new", !.now = t, !.op = [k |-> "new"]]
AlgSetup(t, has) == /\ R.ph = "new" /\ ~has /\ t = R.now
                    /\ R' = [R EXCEPT !.ph = "ret", !.A.setup = TRUE, !.A.start = t, !.A.at = t]

AddSim(hint) == /\ Idle
                /\ R' = [R EXCEPT !.ph = "alg", !.op = [k |-> "addsim", i |-> R.sims, hint |-> hint], !.sims = @ + 1,
                                  !.obs = Owe(@, {CbAdded(R.sims)}), !.mans = Owe(@, {CbAdded(R.sims)})]
AlgAddSim(i, hint) == /\ R.ph = "alg" /\ R.op.k = "addsim" /\ i = R.op.i /\ hint = R.op.hint
                      /\ R' = [R EXCEPT !.ph = "ret", !.A.sims = @ \cup {i}]
AddFun == /\ Idle
          /\ R' = [R EXCEPT !.ph = "alg", !.op = [k |-> "addfun", i |-> R.funs], !.funs = @ + 1]
AlgAddFun(i) == /\ R.ph = "alg" /\ R.op.k = "addfun" /\ i = R.op.i
                /\ R' = [R EXCEPT !.ph = "ret", !.A.funs = @ \cup {i}]
AddObs == /\ Idle
          /\ R' = [R EXCEPT !.ph = "ret", !.op = [k |-> "addobs"],
                            !.obs = Append(@, {CbAdded(i) : i \in 0..(R.sims - 1)} \cup (IF R.init THEN {CbInit} ELSE {}))]
AddMan == /\ Idle
          /\ R' = [R EXCEPT !.ph = "ret", !.op = [k |-> "addman"], !.mans = Append(@, {CbAdded(i) : i \in 0..(R.sims - 1)})]
Connect(o, i) == /\ Idle
                 /\ IF Legal(o, i) THEN R' = [R EXCEPT !.ph = "alg", !.op = [k |-> "conn", o |-> o, i |-> i]]
                    ELSE R' = [R EXCEPT !.ph = "ret", !.op = [k |-> "conn"], !.fail = -1]
\* f = 0: done; otherwise the algorithm throws f
AlgConnect(o, i, f) == /\ R.ph = "alg" /\ R.op.k = "conn" /\ R.op.o = o /\ R.op.i = i
                       /\ R' = [R EXCEPT !.ph = "ret", !.fail = f, !.conns = IF f = 0 THEN @ \cup {<<o, i>>} ELSE @,
                                         !.A.conns = IF f = 0 THEN @ \cup {<<o, i>>} ELSE @]
InitialValue == /\ Idle
                /\ R' = [R EXCEPT !.ph = "ret", !.op = [k |-> "iv"], !.fail = IF R.init THEN -1 ELSE 0]
Describe(i) == /\ Idle
               /\ R' = [R EXCEPT !.ph = "ret", !.op = [k |-> "md", i |-> i], !.fail = IF i \in 0..(R.sims - 1) THEN 0 ELSE -1]
Move == Idle /\ R' = [R EXCEPT !.ph = "ret", !.op = [k |-> "mv"]]

Commencing(r) == [r EXCEPT !.ph = "step", !.mans = Owe(@, {CbCommence})]
Begin(op) == /\ Idle
             /\ LET r == [R EXCEPT !.op = op, !.stop = FALSE] IN
                R' = IF R.init THEN Commencing(r) ELSE [r EXCEPT !.ph = "init"]
Step == Begin([k |-> "step"])
Until(has, t) == Begin([k |-> "until", has |-> has, t |-> t])
AlgInit(f) == /\ R.ph = "init" /\ Quiet
              /\ R' = IF f # 0 THEN [R EXCEPT !.ph = "ret", !.fail = f]
                      ELSE Commencing([R EXCEPT !.init = TRUE, !.A.init = TRUE, !.obs = Owe(@, {CbInit})])
\* is the run at its end, when a step of length d has brought it to time t
Over(op, t, d, stop) == op.k = "step" \/ stop \/ (op.has /\ 100 * (op.t - t) < d)
Running == R.op.k = "until" /\ ~R.stop
\* the algorithm's step: of length dt, the simulators in fin are done; a stop may be requested meanwhile
AlgStep(t, run, dt, fin, stop, f) ==
    /\ R.ph = "step" /\ Quiet /\ t = R.now /\ run = Running
    /\ R' = IF f # 0 THEN [R EXCEPT !.ph = "ret", !.fail = f]
            ELSE [R EXCEPT !.ph = "done", !.now = @ + dt, !.n = @ + 1, !.dt = dt, !.stop = stop,
                           !.obs = Owe(@, {CbSim(i) : i \in fin} \cup {CbStep}), !.A.at = t + dt, !.A.steps = @ + 1]
\* when everybody has been told
StepOver == /\ R.ph = "done" /\ Quiet
            /\ R' = IF Over(R.op, R.now, R.dt, R.stop) THEN [R EXCEPT !.ph = "ret"] ELSE Commencing(R)

ObsCb(o, c, n, dt, t) ==
    /\ o \in DOMAIN R.obs /\ Due(R.obs[o], c) /\ t = R.now
    /\ c.k # "added" => n = R.n
    /\ c.k \in {"sim", "step"} => dt = R.dt
    /\ R' = [R EXCEPT !.obs[o] = @ \ {c}]
ManCb(m, c, t) == /\ m \in DOMAIN R.mans /\ Due(R.mans[m], c) /\ t = R.now
                  /\ R' = [R EXCEPT !.mans[m] = @ \ {c}]

\* f: what is thrown (-1: an error of the execution's own), 0 for nothing; v: the value returned
Value == CASE R.op.k = "addsim" -> R.op.i [] R.op.k = "addfun" -> R.op.i [] R.op.k = "step" -> R.dt
           [] R.op.k = "until" -> (IF R.stop THEN 0 ELSE 1) [] R.op.k = "md" -> R.op.i [] OTHER -> 0
Return(f, v, t) == /\ R.ph = "ret" /\ Quiet /\ f = R.fail /\ t = R.now
                   /\ f = 0 => v = Value
                   /\ R' = [R EXCEPT !.ph = "idle", !.op = NoOp, !.fail = 0, !.stop = FALSE]

(* ---- what is claimed ---- *)
Lawful == /\ R.A.init => R.A.setup
          /\ R.A.steps > 0 => R.A.init
          /\ R.A.at = R.now \/ R.ph \in {"none", "new"}
          /\ R.A.steps = R.n
          /\ R.ph = "idle" => R.A.init = R.init
SameView == R.ph = "idle" => R.A.conns = R.conns /\ R.A.sims = 0..(R.sims - 1) /\ R.A.funs = 0..(R.funs - 1)
OneSource == \A c, d \in R.conns : c[2] = d[2] => c = d
Told == R.ph = "idle" => Quiet
TypeOK == R.ph \in {"none", "new", "idle", "alg", "init", "step", "done", "ret"} /\ R.n \in Nat
NoTimeLost == [][R'.now # R.now => R.ph \in {"none", "step"} /\ (R.ph = "step" => R'.now = R.now + R'.dt)]_R
\* a failure leaves everything as it was
Unharmed == [][(R.ph \in {"init", "step", "alg"} /\ R'.fail # 0) =>
               R'.now = R.now /\ R'.n = R.n /\ R'.init = R.init /\ R'.conns = R.conns /\ R'.obs = R.obs]_R
=============================================================================
