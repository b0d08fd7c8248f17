------------------------------ MODULE StopSim -------------------------------
(***************************************************************************)
(* simulate_until / simulate_until_async against concurrent stop requests.  *)
(* One run at a time; the running flag is shared between the simulation     *)
(* thread and any number of threads calling stop_simulation().              *)
(* Grain: every access to the flag is its own action.                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
VARIABLE R
CONSTANT NSim

InitR == [ ph |-> "idle", stop |-> TRUE, now |-> 0, n |-> 0, has |-> FALSE, tgt |-> 0,
           pend |-> {},          \* stop calls begun whose store has not happened yet
           taken |-> FALSE,      \* ghost: a stop took effect inside the present loop
           after |-> 0,          \* ghost: steps commenced since then
           idle |-> NSim, busy |-> {}, res |-> TRUE ]

Begin(has, t) == /\ R.ph = "idle" /\ R' = [R EXCEPT !.ph = "enter", !.has = has, !.tgt = t]
\* silent: stopped := false
Enter == /\ R.ph = "enter"
         /\ R' = [R EXCEPT !.ph = "loop", !.stop = FALSE, !.taken = FALSE, !.after = 0]
StopBegin(x) == x \notin R.pend /\ R' = [R EXCEPT !.pend = @ \cup {x}]
\* silent: stopped := true
StopTake(x) == /\ x \in R.pend
               /\ R' = [R EXCEPT !.pend = @ \ {x}, !.stop = TRUE,
                          !.taken = @ \/ R.ph \in {"loop", "step", "done", "exit"}]
StopEnd(x) == x \notin R.pend /\ R' = R
Commence == /\ R.ph = "loop"
            /\ R' = [R EXCEPT !.ph = "step", !.busy = {}, !.idle = NSim, !.after = IF R.taken THEN @ + 1 ELSE @]
SlaveBegin(i) == /\ R.ph = "step" /\ R.idle > 0 /\ i \notin R.busy
                 /\ R' = [R EXCEPT !.busy = @ \cup {i}, !.idle = @ - 1]
SlaveEnd(i) == /\ R.ph = "step" /\ i \in R.busy /\ R' = [R EXCEPT !.busy = @ \ {i}]
StepDone == /\ R.ph = "step" /\ R.busy = {} /\ R.idle = 0
            /\ R' = [R EXCEPT !.ph = "done", !.now = @ + 1, !.n = @ + 1]
\* silent: the loop condition is evaluated
Decide == /\ R.ph = "done"
          /\ R' = [R EXCEPT !.ph = IF R.stop \/ (R.has /\ R.tgt - R.now <= 0) THEN "exit" ELSE "loop"]
\* silent: the outcome is read, then the flag is set
Outcome == /\ R.ph = "exit"
           /\ R' = [R EXCEPT !.ph = "ret", !.res = ~R.stop, !.stop = TRUE]
Return(res) == /\ R.ph = "ret" /\ res = R.res /\ R' = [R EXCEPT !.ph = "idle", !.taken = FALSE, !.after = 0]

\* A stop request that took effect inside the loop lets at most the step in progress finish,
\* except that the thread may already have passed the loop condition
StopHonoured == R.after <= 1
\* a run that returns true reached its target and was not stopped before that
TrueMeansReached == (R.ph = "ret" /\ R.res) => (R.has /\ R.now >= R.tgt /\ ~R.taken)
FalseMeansStopped == (R.ph = "ret" /\ ~R.res) => R.taken
AtLeastOneStep == [][(R.ph = "enter" /\ R'.ph # "enter") => R'.ph = "loop"]_R
=============================================================================
