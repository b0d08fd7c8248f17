------------------------------- MODULE MCPool -------------------------------
(* Pool with the wake-up protocol made explicit: workers and waiters sleep on  *)
(* condition variables and move only after having been notified.               *)
EXTENDS Pool
CONSTANTS Tasks, Waiters, WakeAll
VARIABLES wk,      \* worker -> "check" | "sleep" | "busy" | "stop"
          ws,      \* waiter -> "out" | "check" | "sleep"
          tk       \* worker -> its task
vars == <<Q, wk, ws, tk>>
Workers == 1..N
MInit == Q = InitQ /\ wk = [x \in Workers |-> "check"] /\ ws = [x \in Waiters |-> "out"] /\ tk = [x \in Workers |-> 0]
WakeOne(f) == IF \E x \in DOMAIN f : f[x] = "sleep"
              THEN {[f EXCEPT ![x] = "check"] : x \in {x \in DOMAIN f : f[x] = "sleep"}} ELSE {f}
Sub(k) == SubmitBegin(k, "main") /\ UNCHANGED <<wk, ws, tk>>
Enq(k) == Enqueue(k) /\ wk' \in WakeOne(wk) /\ UNCHANGED <<ws, tk>>
WorkerCheck(x) ==
    /\ wk[x] = "check"
    /\ IF Q.queue # <<>> THEN /\ Q' = [Q EXCEPT !.queue = Tail(@), !.run = @ \cup {<<Head(Q.queue), x>>}]
                              /\ wk' = [wk EXCEPT ![x] = "busy"] /\ tk' = [tk EXCEPT ![x] = Head(Q.queue)]
       ELSE IF ~Q.open THEN Q' = Q /\ wk' = [wk EXCEPT ![x] = "stop"] /\ UNCHANGED tk
       ELSE Q' = Q /\ wk' = [wk EXCEPT ![x] = "sleep"] /\ UNCHANGED tk
    /\ UNCHANGED ws
WorkerEnd(x) == /\ wk[x] = "busy" /\ TaskEnd(tk[x], x)
                /\ wk' = [wk EXCEPT ![x] = "check"]
                /\ ws' \in (IF WakeAll THEN {[w \in Waiters |-> IF ws[w] = "sleep" THEN "check" ELSE ws[w]]} ELSE WakeOne(ws))
                /\ UNCHANGED tk
WaiterIn(w) == ws[w] = "out" /\ WaitBegin(w) /\ ws' = [ws EXCEPT ![w] = "check"] /\ UNCHANGED <<wk, tk>>
WaiterCheck(w) == /\ ws[w] = "check"
                  /\ IF Quiet(Q) THEN WaitEnd(w) /\ ws' = [ws EXCEPT ![w] = "out"]
                     ELSE Q' = Q /\ ws' = [ws EXCEPT ![w] = "sleep"]
                  /\ UNCHANGED <<wk, tk>>
Destroy == /\ Q.acc = Tasks /\ Q.calls = {} /\ \A w \in Waiters : ws[w] = "out"
           /\ DestroyBegin /\ wk' = [x \in Workers |-> IF wk[x] = "sleep" THEN "check" ELSE wk[x]] /\ UNCHANGED <<ws, tk>>
Joined == (\A x \in Workers : wk[x] = "stop") /\ DestroyEnd /\ UNCHANGED <<wk, ws, tk>> /\ ~Q.gone
Next == \/ \E k \in Tasks : Sub(k) \/ Enq(k)
        \/ \E x \in Workers : WorkerCheck(x) \/ WorkerEnd(x)
        \/ \E w \in Waiters : WaiterIn(w) \/ WaiterCheck(w)
        \/ Destroy \/ Joined
Spec == MInit /\ [][Next]_vars
        /\ \A x \in Workers : WF_vars(WorkerCheck(x)) /\ WF_vars(WorkerEnd(x))
        /\ \A w \in Waiters : WF_vars(WaiterCheck(w))
        /\ \A k \in Tasks : WF_vars(Enq(k))
        /\ WF_vars(Joined)
EveryTaskRuns == \A k \in Tasks : (k \in Q.acc) ~> (k \in Q.done)
EveryWaitReturns == \A w \in Waiters : (ws[w] = "check") ~> (ws[w] = "out")
DestroyReturns == (~Q.open) ~> Q.gone
\* WaitEnd's guard in the model is Quiet; it must imply the promise
WaitPromise == \A p \in Q.wait : (Quiet(Q) /\ Q.calls = {}) => p[2] \subseteq Q.done
Fifo == TRUE
=============================================================================
