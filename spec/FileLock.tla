------------------------------ MODULE FileLock ------------------------------
(***************************************************************************)
(* file_lock: a lock on a file, shared by threads of several processes.     *)
(* Each process has one shared mutex and one counted OS lock per file; the  *)
(* mutex is always taken first and released last.                           *)
(*   K.mx[p,f]   thread that has the mutex of process p exclusively, or 0   *)
(*   K.ms[p,f]   threads that have it shared                                *)
(*   K.ox[f]     process that has the file locked exclusively, or 0         *)
(*   K.os[f]     processes that have it locked shared                       *)
(*   K.n[p,f]    shared holders (or takers) counted in the process          *)
(*   K.pc[t]     what thread t is doing: [s, m, f]; m is "X" or "S"         *)
(*     s: idle; req: wants the mutex; file: has the mutex, wants the file;  *)
(*        got: has both, call not ended; fail: refused, has the mutex;      *)
(*        no: refused, call not ended;                                      *)
(*        rel: released nothing yet; half: released the file only;          *)
(*        out: released both, call not ended                                *)
(*     b: the call may block                                                *)
(*   K.held[t]   what thread t holds: set of [f, m]                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Threads, Procs, Files, ProcOf
VARIABLE K
Idle == [s |-> "idle", m |-> "", f |-> 0, b |-> FALSE]
InitK == K = [mx |-> [x \in Procs \X Files |-> 0], ms |-> [x \in Procs \X Files |-> {}],
              ox |-> [f \in Files |-> 0], os |-> [f \in Files |-> {}], n |-> [x \in Procs \X Files |-> 0],
              pc |-> [t \in Threads |-> Idle], held |-> [t \in Threads |-> {}], dead |-> {}]
Slot(t, f) == <<ProcOf[t], f>>
At(t, s) == K.pc[t].s = s

(* A thread may hold a file only once. *)
Ask(t, f, m, blocking) ==
    /\ At(t, "idle") /\ ~\E h \in K.held[t] : h.f = f /\ ProcOf[t] \notin K.dead
    /\ K' = [K EXCEPT !.pc[t] = [s |-> "req", m |-> m, f |-> f, b |-> blocking]]

MutexFree(t, f, m) == K.mx[Slot(t, f)] = 0 /\ (m = "X" => K.ms[Slot(t, f)] = {})
\* someone in the process is about to be the first shared holder, or to be no longer the last one
Counting(t, f) == \E u \in Threads \ {t} : /\ ProcOf[u] = ProcOf[t] /\ K.pc[u].f = f /\ K.pc[u].m = "S"
                                            /\ K.pc[u].s \in {"file", "got", "fail", "rel", "half"}
FileFree(t, f, m) == LET p == ProcOf[t] IN
    IF m = "X" THEN K.ox[f] \in {0} /\ K.os[f] \subseteq {p}
    ELSE K.n[Slot(t, f)] > 0 \/ K.ox[f] = 0

TakeMutex(t) ==
    LET r == K.pc[t] f == r.f IN
    /\ At(t, "req")
    /\ \/ /\ MutexFree(t, f, r.m)
          /\ K' = [K EXCEPT !.pc[t].s = "file",
                            !.mx[Slot(t, f)] = IF r.m = "X" THEN t ELSE @,
                            !.ms[Slot(t, f)] = IF r.m = "S" THEN @ \cup {t} ELSE @]
       \/ /\ ~r.b /\ ~MutexFree(t, f, r.m)
          /\ K' = [K EXCEPT !.pc[t].s = "no"]
DropMutex(k, t, f) == [k EXCEPT !.mx[Slot(t, f)] = IF @ = t THEN 0 ELSE @, !.ms[Slot(t, f)] = @ \ {t}]
TakeFile(t) ==
    LET r == K.pc[t] f == r.f p == ProcOf[t] IN
    /\ At(t, "file")
    /\ \/ /\ FileFree(t, f, r.m)
          /\ K' = [K EXCEPT !.pc[t].s = "got", !.held[t] = @ \cup {[f |-> f, m |-> r.m]},
                            !.ox[f] = IF r.m = "X" THEN p ELSE @,
                            !.os[f] = IF r.m = "S" THEN @ \cup {p} ELSE @,
                            !.n[Slot(t, f)] = IF r.m = "S" THEN @ + 1 ELSE @]
       \/ /\ ~r.b /\ (~FileFree(t, f, r.m) \/ (r.m = "S" /\ Counting(t, f)))
          /\ K' = [K EXCEPT !.pc[t].s = "fail"]
GiveBack(t) == At(t, "fail") /\ K' = DropMutex([K EXCEPT !.pc[t].s = "no"], t, K.pc[t].f)
Granted(t) == At(t, "got") /\ K' = [K EXCEPT !.pc[t] = Idle]
Refused(t) == At(t, "no") /\ K' = [K EXCEPT !.pc[t] = Idle]

Release(t, f) ==
    /\ At(t, "idle") /\ \E h \in K.held[t] : h.f = f
    /\ K' = [K EXCEPT !.pc[t] = [s |-> "rel", m |-> (CHOOSE h \in K.held[t] : h.f = f).m, f |-> f, b |-> FALSE]]
DropFile(t) ==
    LET r == K.pc[t] f == r.f p == ProcOf[t] left == K.n[Slot(t, f)] - 1 IN
    /\ At(t, "rel")
    /\ K' = [K EXCEPT !.pc[t].s = "half", !.held[t] = {h \in @ : h.f # f},
                      !.ox[f] = IF r.m = "X" THEN 0 ELSE @,
                      !.n[Slot(t, f)] = IF r.m = "S" THEN left ELSE @,
                      !.os[f] = IF r.m = "S" /\ left = 0 THEN @ \ {p} ELSE @]
LetGo(t) == At(t, "half") /\ K' = DropMutex([K EXCEPT !.pc[t].s = "out"], t, K.pc[t].f)
Released(t) == At(t, "out") /\ K' = [K EXCEPT !.pc[t] = Idle]

(* The process ends, and all it had is free again. *)
Die(p) ==
    /\ p \notin K.dead
    /\ K' = [K EXCEPT !.dead = @ \cup {p},
                      !.mx = [x \in DOMAIN @ |-> IF x[1] = p THEN 0 ELSE @[x]],
                      !.ms = [x \in DOMAIN @ |-> IF x[1] = p THEN {} ELSE @[x]],
                      !.n = [x \in DOMAIN @ |-> IF x[1] = p THEN 0 ELSE @[x]],
                      !.ox = [f \in Files |-> IF @[f] = p THEN 0 ELSE @[f]],
                      !.os = [f \in Files |-> @[f] \ {p}],
                      !.pc = [t \in Threads |-> IF ProcOf[t] = p THEN Idle ELSE @[t]],
                      !.held = [t \in Threads |-> IF ProcOf[t] = p THEN {} ELSE @[t]]]

Internal(t) == TakeMutex(t) \/ TakeFile(t) \/ GiveBack(t) \/ DropFile(t) \/ LetGo(t)
CanMove(t) == LET r == K.pc[t] IN
    \/ r.s \in {"got", "fail", "no", "rel", "half", "out"}
    \/ r.s = "req" /\ (~r.b \/ MutexFree(t, r.f, r.m))
    \/ r.s = "file" /\ (~r.b \/ FileFree(t, r.f, r.m))
Quiet == \A t \in Threads : ~CanMove(t)

(******************************* properties ********************************)
Holders(f) == {t \in Threads : \E h \in K.held[t] : h.f = f}
Exclusion == \A f \in Files : \A t \in Holders(f) : [f |-> f, m |-> "X"] \in K.held[t] => Holders(f) = {t}
\* the OS lock is held exactly when some thread holds the lock
Tight == \A f \in Files :
    /\ (K.ox[f] # 0) = (\E t \in Holders(f) : [f |-> f, m |-> "X"] \in K.held[t])
    /\ K.os[f] = {ProcOf[t] : t \in {u \in Threads : [f |-> f, m |-> "S"] \in K.held[u]}}
    /\ \A p \in Procs : K.n[<<p, f>>] = Cardinality({u \in Threads : ProcOf[u] = p /\ [f |-> f, m |-> "S"] \in K.held[u]})
\* whoever waits is kept from it by someone who holds or waits
Blocked == Quiet => \A t \in Threads : K.pc[t].s \in {"req", "file"} =>
    \E f \in Files : Holders(f) # {}
=============================================================================
