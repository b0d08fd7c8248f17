---------------------------- MODULE MCCacheLocks ----------------------------
(* The implementation's steps, watched by the specification of what callers   *)
(* may see: every beginning and end of a call must be allowed by FileCache.   *)
EXTENDS CacheLocks
VARIABLES P, bad
F == INSTANCE FileCache WITH ProcOf <- [p \in Clients |-> p]
mvars == <<vars, P, bad>>
Watch(A) == IF ENABLED A THEN A /\ bad' = bad ELSE bad' = TRUE /\ UNCHANGED P
\* the handle of client p to key k
H(p, k) == p * 10 + k
MInit == Init /\ F!InitP /\ bad = FALSE
Silent == UNCHANGED <<P, bad>>
MCall(p) == \E k \in Keys, m \in {"rw", "ro"} : Call(p, k, m) /\ Watch(F!Ask(p, k, m))
MFinish(p) == Finish(p) /\ IF c[p].k \in DOMAIN c'[p].own THEN Watch(F!Grant(p, H(p, c[p].k), <<c[p].k>>)) ELSE Watch(F!Refuse(p))
\* a release begins and ends with the step that frees the lock
Rel(p, k) == /\ lock' = [lock EXCEPT ![c[p].own[k].i] = Drop(@, p)] /\ c' = [c EXCEPT ![p].own = Del(@, k)]
             /\ UNCHANGED <<root, ino, dir, calls, nextIno>>
MRelease(p) == \E k \in DOMAIN c[p].own : Release(p) /\ Rel(p, k)
                   /\ Watch(H(p, k) \in DOMAIN P.use /\ P' = F!Norm([P EXCEPT !.use = Del(@, H(p, k))]))
MClean(p) == CallClean(p) /\ Watch(F!CleanBegin(p))
MCleanEnd(p) == CleanEnd(p) /\ Watch(F!CleanEnd(p))
MStep(p) == /\ Wake(p) \/ LockRoot(p) \/ Open(p) \/ LockKey(p) \/ CleanRoot(p) \/ Clean(p) \/ CleanData(p) \/ CleanFile(p)
            /\ Silent
MNext == \E p \in Clients : MCall(p) \/ MFinish(p) \/ MRelease(p) \/ MClean(p) \/ MCleanEnd(p) \/ MStep(p)
MSpec == MInit /\ [][MNext]_mvars
Allowed == ~bad
\* what is found when no call is going on
FoundOk == (\A p \in Clients : c[p].pc = "idle") => \A k \in Keys : (k \in P.sure => k \in dir) /\ (k \in dir => k \in P.may)
\* every wait has a reason
WaitOk == (\A p \in Clients : c[p].pc \in {"idle", "sleep"}) /\ (\A p \in Clients : c[p].pc = "sleep" => Wanted(p)) => F!Stuck
=============================================================================
