------------------------------- MODULE MCConcObs -----------------------------
(***************************************************************************)
(* How the observers meet ConcObs: a notification copies the variables one   *)
(* by one, then adds to the readers' own series; a query copies them out     *)
(* one by one; both hold the observer's lock while they do, and so does who  *)
(* starts or stops a series.  With Locked = FALSE the same processes violate *)
(* Fresh (refuted in the check, to show that the property is not vacuous).   *)
(***************************************************************************)
EXTENDS ConcObs
CONSTANTS NVar, MaxStep, Readers, Locked
VARIABLES mem, wpc, lock, rd, own, ok
mvars == <<cfg, C, mem, wpc, lock, rd, own, ok>>
Free == "free"
None == [on |-> FALSE, s |-> <<>>]
MInit ==
    /\ cfg = [n |-> 1, buf |-> 3, dt |-> 1] /\ InitC
    /\ mem = [v \in 1..NVar |-> 0] /\ wpc = 0 /\ lock = Free
    /\ rd = [r \in Readers |-> [pc |-> 0, k |-> "", xs |-> <<>>]] /\ own = [r \in Readers |-> None] /\ ok = TRUE
Last3(s) == IF Len(s) > cfg.buf THEN Tail(s) ELSE s
\* writer: 0 idle, 1 begun, 2.. copying variable wpc-1, NVar+2 the series, NVar+3 finished
WBegin == wpc = 0 /\ C.done[1] < MaxStep /\ NoteBegin(1, C.done[1] + 1) /\ wpc' = 1 /\ UNCHANGED <<mem, lock, rd, own, ok>>
WLock == wpc = 1 /\ (Locked => lock = Free) /\ lock' = (IF Locked THEN "w" ELSE lock) /\ wpc' = 2 /\ UNCHANGED <<cfg, C, mem, rd, own, ok>>
WCopy == wpc \in 2..(NVar + 1) /\ mem' = [mem EXCEPT ![wpc - 1] = C.begun[1]] /\ wpc' = wpc + 1 /\ UNCHANGED <<cfg, C, lock, rd, own, ok>>
WSeries == /\ wpc = NVar + 2 /\ wpc' = NVar + 3
           /\ own' = [r \in Readers |-> IF own[r].on THEN [own[r] EXCEPT !.s = Last3(Append(@, C.begun[1]))] ELSE own[r]]
           /\ UNCHANGED <<cfg, C, mem, lock, rd, ok>>
WEnd == wpc = NVar + 3 /\ NoteEnd(1, C.begun[1]) /\ lock' = (IF Locked THEN Free ELSE lock) /\ wpc' = 0 /\ UNCHANGED <<mem, rd, own, ok>>
RBegin(r, k) == rd[r].pc = 0 /\ C.done[1] >= 0 /\ QueryBegin(r) /\ rd' = [rd EXCEPT ![r] = [pc |-> 1, k |-> k, xs |-> <<>>]] /\ UNCHANGED <<mem, wpc, lock, own, ok>>
RLock(r) == rd[r].pc = 1 /\ (Locked => lock = Free) /\ lock' = (IF Locked THEN r ELSE lock) /\ rd' = [rd EXCEPT ![r].pc = 2] /\ UNCHANGED <<cfg, C, mem, wpc, own, ok>>
RCopy(r) == rd[r].k = "last" /\ rd[r].pc \in 2..(NVar + 1) /\ rd' = [rd EXCEPT ![r].pc = @ + 1, ![r].xs = Append(@, mem[rd[r].pc - 1])] /\ UNCHANGED <<cfg, C, mem, wpc, lock, own, ok>>
ROwn(r) ==
    /\ rd[r].k # "last" /\ rd[r].pc = 2
    /\ rd' = [rd EXCEPT ![r].pc = NVar + 2, ![r].xs = own[r].s]
    /\ own' = [own EXCEPT ![r] = IF rd[r].k = "start" THEN [on |-> TRUE, s |-> <<>>] ELSE IF rd[r].k = "stop" THEN None ELSE @]
    /\ UNCHANGED <<cfg, C, mem, wpc, lock, ok>>
RUnlock(r) == rd[r].pc = NVar + 2 /\ lock' = (IF Locked THEN Free ELSE lock) /\ rd' = [rd EXCEPT ![r].pc = NVar + 3] /\ UNCHANGED <<cfg, C, mem, wpc, own, ok>>
REnd(r) ==
    /\ rd[r].pc = NVar + 3
    /\ CASE rd[r].k = "last" -> ok' = LastOK(r, 1, rd[r].xs) /\ QueryEnd(r)
         [] rd[r].k = "start" -> ok' = ok /\ StartMine(r, 1)
         [] rd[r].k = "stop" -> ok' = ok /\ StopMine(r, 1)
         [] rd[r].k = "read" -> ok' = MineOK(r, 1, 0, MaxStep + 1, own[r].on => rd[r].xs # <<>>, rd[r].xs, rd[r].xs, rd[r].xs) /\ QueryEnd(r)
    /\ rd' = [rd EXCEPT ![r] = [pc |-> 0, k |-> "", xs |-> <<>>]] /\ UNCHANGED <<mem, wpc, lock, own>>
MNext == WBegin \/ WLock \/ WCopy \/ WSeries \/ WEnd
         \/ \E r \in Readers : (\E k \in {"last", "start", "stop", "read"} : RBegin(r, k)) \/ RLock(r) \/ RCopy(r) \/ ROwn(r) \/ RUnlock(r) \/ REnd(r)
Spec == MInit /\ [][MNext]_mvars
Fresh == ok
=============================================================================
