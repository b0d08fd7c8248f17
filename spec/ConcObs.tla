------------------------------- MODULE ConcObs -----------------------------
(***************************************************************************)
(* Queries racing with notifications.  Simulator i records its step number   *)
(* as the value of every variable, so what a query returns tells which        *)
(* completed step it belongs to.                                             *)
(*   begun[i], done[i]  newest step whose notification has begun / returned    *)
(*   open[th]           what had been done when the query of thread th began   *)
(*   mine[<<th,i>>]     thread th has a series of simulator i to itself, which   *)
(*                      it starts and stops: the step it began with is between   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, C
cvars == <<cfg, C>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
InitC == C = [begun |-> [i \in 1..cfg.n |-> -1], done |-> [i \in 1..cfg.n |-> -1], open |-> <<>>, mine |-> <<>>]

NoteBegin(i, k) ==
    /\ C.begun[i] = C.done[i] /\ k = C.done[i] + 1
    /\ C' = [C EXCEPT !.begun[i] = k]
    /\ UNCHANGED cfg
NoteEnd(i, k) ==
    /\ C.begun[i] = k /\ C.done[i] = k - 1
    /\ C' = [C EXCEPT !.done[i] = k]
    /\ UNCHANGED cfg
QueryBegin(th) ==
    /\ th \notin DOMAIN C.open
    /\ C' = [C EXCEPT !.open = Put(@, th, C.done)]
    /\ UNCHANGED cfg
QueryEnd(th) ==
    /\ th \in DOMAIN C.open
    /\ C' = [C EXCEPT !.open = Del(@, th)]
    /\ UNCHANGED cfg
\* a series starts with the first step recorded after it was asked for
StartMine(th, i) ==
    /\ th \in DOMAIN C.open
    /\ C' = [C EXCEPT !.open = Del(@, th), !.mine = Put(@, <<th, i>>, [lo |-> C.open[th][i] + 1, hi |-> C.begun[i] + 1])]
    /\ UNCHANGED cfg
StopMine(th, i) ==
    /\ th \in DOMAIN C.open
    /\ C' = [C EXCEPT !.open = Del(@, th), !.mine = Del(@, <<th, i>>)]
    /\ UNCHANGED cfg
\* the points in time the answer may belong to
When(th, i) == C.open[th][i]..C.begun[i]
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
\* samples in the buffer once step k has been recorded, restricted to the window
Kept(k, from, n) ==
    LET lo == MaxOf(MaxOf(0, k - cfg.buf + 1), from)
        hi == MinOf(k, from + n - 1)
    IN IF hi < lo THEN <<>> ELSE [m \in 1..(hi - lo + 1) |-> lo + m - 1]
MineOK(th, i, from, n, ok, s, t, x) ==
    IF <<th, i>> \notin DOMAIN C.mine THEN ok /\ s = <<>> /\ t = <<>> /\ x = <<>>
    ELSE /\ \E k \in When(th, i), b \in C.mine[<<th, i>>].lo..C.mine[<<th, i>>].hi :
               /\ ok = (b <= k) \* a query of a series with nothing in it is refused
               /\ s = SelectSeq(Kept(k, from, n), LAMBDA e : e >= b)
         /\ x = s /\ t = [m \in DOMAIN s |-> cfg.dt * s[m]]
LastOK(th, i, xs) == \E k \in When(th, i) : \A m \in DOMAIN xs : xs[m] = k
SeriesOK(th, i, from, n, s, t, x) ==
    \E k \in When(th, i) : /\ s = Kept(k, from, n) /\ x = s
                           /\ t = [m \in DOMAIN s |-> cfg.dt * s[m]]
Both(k1, k2, from, n) == LET a == Kept(k1, from, n) IN SelectSeq(a, LAMBDA e : \E m \in DOMAIN Kept(k2, from, n) : Kept(k2, from, n)[m] = e)
SyncOK(th, i, j, from, n, x, y) ==
    \E k1 \in When(th, i), k2 \in When(th, j) : x = Both(k1, k2, from, n) /\ y = x
StepsOK(th, i, d, s) ==
    \E k \in When(th, i) : s = <<MaxOf(MaxOf(0, k - cfg.buf + 1), k - (d \div cfg.dt) - (IF d % cfg.dt = 0 THEN 0 ELSE 1)), k>>
=============================================================================
