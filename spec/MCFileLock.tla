----------------------------- MODULE MCFileLock -----------------------------
EXTENDS FileLock, TLC
CONSTANT MaxOps
VARIABLE n
vars == <<K, n>>
Init == InitK /\ n = 0
Alive(t) == ProcOf[t] \notin K.dead
MAsk(t) == /\ n < MaxOps /\ n' = n + 1 /\ Alive(t) /\ \E f \in Files, m \in {"X", "S"}, b \in BOOLEAN :
               /\ (b => K.held[t] = {})   \* no blocking request while holding another lock
               /\ Ask(t, f, m, b)
MRelease(t) == Alive(t) /\ UNCHANGED n /\ \E f \in Files : Release(t, f)
MDie == n < MaxOps /\ n' = n + 1 /\ \E p \in Procs : Die(p)
Own(t) == UNCHANGED n /\ (Internal(t) \/ Granted(t) \/ Refused(t) \/ Released(t))
Next == (\E t \in Threads : MAsk(t) \/ MRelease(t) \/ Own(t)) \/ MDie
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Own(t)) /\ WF_vars(MRelease(t))
EveryoneGoesOn == \A t \in Threads : K.pc[t].s # "idle" ~> K.pc[t].s = "idle"
\* a call that does not block does not wait for anybody
TryIsFree == \A t \in Threads : K.pc[t].s \in {"req", "file"} /\ ~K.pc[t].b => ENABLED Internal(t)
RW == INSTANCE RWLock WITH Users <- Threads, H <- K.held
IsRWLock == RW!SpecH
ThreeProcOf == <<1, 1, 2>>
=============================================================================
