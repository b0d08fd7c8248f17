------------------------------ MODULE CacheLocks -----------------------------
(***************************************************************************)
(* How persistent_file_cache does it: a root lock, one lock file per key    *)
(* that clean-up deletes (locks are on file objects, not on names, so that  *)
(* each creation of a lock file makes a new lock), and a data directory per *)
(* key.  Each client is a process of its own.                               *)
(*   Wait = "release": a client that cannot lock a key lets go of the root  *)
(*          lock and tries again later (the implementation)                 *)
(*   Wait = "keep":    it waits for the key while it keeps the root lock    *)
(*   Root = FALSE:     clean-up does not take the root lock                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Clients, Keys, MaxCalls, Wait, Root
VARIABLES root, ino, lock, dir, c, calls, nextIno
vars == <<root, ino, lock, dir, c, calls, nextIno>>
\* root: [x: client or 0, s: clients]; ino[k]: the lock file of k (0: none)
\* lock[i]: who has lock file i: [x, s]; dir: keys with a data directory
\* c[i]: [pc, k, m, i (lock file in use), own: key -> [i, m] handles]
None == [x |-> 0, s |-> {}]
Free(l, m) == l.x = 0 /\ (m = "rw" => l.s = {})
Take(l, p, m) == IF m = "rw" THEN [l EXCEPT !.x = p] ELSE [l EXCEPT !.s = @ \cup {p}]
Drop(l, p) == [x |-> IF l.x = p THEN 0 ELSE l.x, s |-> l.s \ {p}]
Idle == [pc |-> "idle", k |-> 0, m |-> "", i |-> 0, todo |-> {}, own |-> <<>>]
MaxIno == 2 + Cardinality(Clients) * MaxCalls
Init == /\ root = None /\ ino = [k \in Keys |-> 0] /\ lock = [i \in 1..MaxIno |-> None] /\ dir = {}
        /\ c = [p \in Clients |-> Idle] /\ calls = 0 /\ nextIno = 1
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* A client asks for keys in a fixed order only, so that no deadlock is its own fault.
Call(p, k, m) == /\ c[p].pc = "idle" /\ calls < MaxCalls /\ \A o \in DOMAIN c[p].own : o < k
                 /\ c' = [c EXCEPT ![p].pc = "root", ![p].k = k, ![p].m = m] /\ calls' = calls + 1
                 /\ UNCHANGED <<root, ino, lock, dir, nextIno>>
CallClean(p) == /\ c[p].pc = "idle" /\ calls < MaxCalls
                /\ c' = [c EXCEPT ![p].pc = "croot", ![p].todo = Keys] /\ calls' = calls + 1
                /\ UNCHANGED <<root, ino, lock, dir, nextIno>>
LockRoot(p) == /\ c[p].pc = "root" /\ Free(root, c[p].m)
               /\ root' = Take(root, p, c[p].m) /\ c' = [c EXCEPT ![p].pc = "open"]
               /\ UNCHANGED <<ino, lock, dir, calls, nextIno>>
Open(p) == /\ c[p].pc = "open"
           /\ LET k == c[p].k IN
              IF ino[k] = 0 THEN ino' = [ino EXCEPT ![k] = nextIno] /\ nextIno' = nextIno + 1
                                 /\ c' = [c EXCEPT ![p].pc = "lock", ![p].i = nextIno]
              ELSE c' = [c EXCEPT ![p].pc = "lock", ![p].i = ino[k]] /\ UNCHANGED <<ino, nextIno>>
           /\ UNCHANGED <<root, lock, dir, calls>>
LockKey(p) == /\ c[p].pc = "lock"
              /\ \/ /\ Free(lock[c[p].i], c[p].m)
                    /\ lock' = [lock EXCEPT ![c[p].i] = Take(@, p, c[p].m)] /\ c' = [c EXCEPT ![p].pc = "dir"]
                    /\ UNCHANGED root
                 \/ /\ ~Free(lock[c[p].i], c[p].m) /\ Wait = "release"
                    /\ root' = Drop(root, p) /\ c' = [c EXCEPT ![p].pc = "sleep", ![p].i = 0] /\ UNCHANGED lock
              /\ UNCHANGED <<ino, dir, calls, nextIno>>
\* The time between attempts is long compared to everything but waiting for a key:
\* everyone who wants the root lock has had it before a sleeper wakes up.
Wake(p) == /\ c[p].pc = "sleep" /\ \A q \in Clients : c[q].pc \in {"idle", "sleep"}
           /\ c' = [c EXCEPT ![p].pc = "root"] /\ UNCHANGED <<root, ino, lock, dir, calls, nextIno>>
Finish(p) == /\ c[p].pc = "dir"
             /\ LET k == c[p].k IN
                IF c[p].m = "ro" /\ k \notin dir
                THEN /\ lock' = [lock EXCEPT ![c[p].i] = Drop(@, p)] /\ c' = [c EXCEPT ![p] = [Idle EXCEPT !.own = c[p].own]]
                     /\ UNCHANGED dir
                ELSE /\ dir' = dir \cup {k} /\ UNCHANGED lock
                     /\ c' = [c EXCEPT ![p] = [Idle EXCEPT !.own = Put(c[p].own, k, [i |-> c[p].i, m |-> c[p].m])]]
             /\ root' = Drop(root, p) /\ UNCHANGED <<ino, calls, nextIno>>
Release(p) == /\ c[p].pc = "idle" /\ \E k \in DOMAIN c[p].own :
                  /\ lock' = [lock EXCEPT ![c[p].own[k].i] = Drop(@, p)]
                  /\ c' = [c EXCEPT ![p].own = Del(@, k)]
              /\ UNCHANGED <<root, ino, dir, calls, nextIno>>
CleanRoot(p) == /\ c[p].pc = "croot" /\ (Root => Free(root, "rw"))
                /\ root' = (IF Root THEN Take(root, p, "rw") ELSE root) /\ c' = [c EXCEPT ![p].pc = "clean"]
                /\ UNCHANGED <<ino, lock, dir, calls, nextIno>>
\* one key: try the lock, delete the data, then the lock file
Clean(p) == /\ c[p].pc = "clean" /\ c[p].todo # {}
            /\ LET k == CHOOSE x \in c[p].todo : \A y \in c[p].todo : x <= y IN
               /\ c' = [c EXCEPT ![p].todo = @ \ {k}, ![p].k = k,
                                 ![p].pc = IF ino[k] # 0 /\ Free(lock[ino[k]], "rw") THEN "data" ELSE "clean",
                                 ![p].i = IF ino[k] # 0 THEN ino[k] ELSE 0]
               /\ lock' = IF ino[k] # 0 /\ Free(lock[ino[k]], "rw") THEN [lock EXCEPT ![ino[k]] = Take(@, p, "rw")] ELSE lock
            /\ UNCHANGED <<root, ino, dir, calls, nextIno>>
CleanData(p) == /\ c[p].pc = "data" /\ dir' = dir \ {c[p].k} /\ c' = [c EXCEPT ![p].pc = "file"]
                /\ UNCHANGED <<root, ino, lock, calls, nextIno>>
CleanFile(p) == /\ c[p].pc = "file" /\ ino' = [ino EXCEPT ![c[p].k] = 0]
                /\ lock' = [lock EXCEPT ![c[p].i] = Drop(@, p)] /\ c' = [c EXCEPT ![p].pc = "clean"]
                /\ UNCHANGED <<root, dir, calls, nextIno>>
CleanEnd(p) == /\ c[p].pc = "clean" /\ c[p].todo = {}
               /\ root' = Drop(root, p) /\ c' = [c EXCEPT ![p].pc = "idle"]
               /\ UNCHANGED <<ino, lock, dir, calls, nextIno>>
Step(p) == Wake(p) \/ LockRoot(p) \/ Open(p) \/ LockKey(p) \/ Finish(p) \/ CleanRoot(p) \/ Clean(p) \/ CleanData(p) \/ CleanFile(p) \/ CleanEnd(p)
Next == \E p \in Clients : (\E k \in Keys, m \in {"rw", "ro"} : Call(p, k, m)) \/ CallClean(p) \/ Release(p) \/ Step(p)
\* Holders that are not in a call need not release anything.
Spec == Init /\ [][Next]_vars /\ \A p \in Clients : WF_vars(Step(p)) /\ SF_vars(LockKey(p) /\ c'[p].pc = "dir") /\ SF_vars(Wake(p))

\* of the locks no more is asked for than FileLock gives; file 0 is the root lock
Locks(l, p, f) == {[f |-> f, m |-> m] : m \in {x \in {"X", "S"} : IF x = "X" THEN l.x = p ELSE p \in l.s}}
RW == INSTANCE RWLock WITH Users <- Clients, Files <- 0..MaxIno,
        H <- [p \in Clients |-> Locks(root, p, 0) \cup UNION {Locks(lock[i], p, i) : i \in 1..MaxIno}]
UsesRWLock == RW!SpecH

Exclusive == \A p, q \in Clients : p # q => \A k \in DOMAIN c[p].own \cap DOMAIN c[q].own : c[p].own[k].m = "ro" /\ c[q].own[k].m = "ro"
KeptInUse == \A p \in Clients : DOMAIN c[p].own \subseteq dir
\* a lock file in use is the one that has the name
Current == \A p \in Clients : \A k \in DOMAIN c[p].own : c[p].own[k].i = ino[k]
\* a call waits for good only if its own key is held by someone else
Wanted(p) == \E q \in Clients \ {p} : c[p].k \in DOMAIN c[q].own /\ (c[p].m = "rw" \/ c[q].own[c[p].k].m = "rw")
Asking(p) == c[p].pc \in {"root", "open", "lock", "sleep", "dir"}
NobodyElseBlocks == \A p \in Clients : Asking(p) ~> (~Asking(p) \/ Wanted(p))
CleanupEnds == \A p \in Clients : (c[p].pc \in {"croot", "clean", "data", "file"}) ~> (c[p].pc = "idle")
=============================================================================
