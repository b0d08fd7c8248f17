------------------------------- MODULE Series ------------------------------
(***************************************************************************)
(* The observers that answer queries: the latest values of each simulator   *)
(* and, for variables being observed, the newest samples with step numbers   *)
(* and times.  A variable is identified by its position in cfg.sims[i]: a    *)
(* record [ty |-> type, ref |-> reference].                                 *)
(* The declarative reading of the property is in the operators named Decl*:  *)
(* they look only at the complete history H of notifications.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, D
\* D: sims |-> function from present simulators to
\*      [cur |-> values, snap |-> values at the last notification, has |-> notified?,
\*       ser |-> function from observed variables to sequences of [s, t, x],
\*       tim |-> sequence of [s, t], late |-> added after initialization]
\*    init |-> initialized?,  H |-> history (for the model only)
dvars == <<cfg, D>>

Vars(i) == DOMAIN cfg.sims[i]
InitD == D = [sims |-> <<>>, init |-> FALSE, H |-> <<>>]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* A buffer sorted by step; recording a step again replaces it; only the newest cfg.buf remain.
Push(q, e) ==
    LET p == IF Len(q) > 0 /\ q[Len(q)].s = e.s THEN SubSeq(q, 1, Len(q) - 1) ELSE q
        r == Append(p, e)
    IN IF Len(r) > cfg.buf THEN Tail(r) ELSE r

Add(i, t) ==
    /\ i \notin DOMAIN D.sims
    /\ D' = [D EXCEPT !.sims = Put(@, i,
                [cur |-> [v \in Vars(i) |-> 0], snap |-> [v \in Vars(i) |-> 0], has |-> FALSE,
                 ser |-> <<>>, tim |-> <<[s |-> 0, t |-> t]>>, late |-> D.init])]
    /\ UNCHANGED cfg
Remove(i) ==
    /\ i \in DOMAIN D.sims
    /\ D' = [D EXCEPT !.sims = Del(@, i)]
    /\ UNCHANGED cfg
\* The simulator's own values change (no notification).
Change(i, v, x) ==
    /\ D' = [D EXCEPT !.sims[i].cur[v] = x]
    /\ UNCHANGED cfg

Observe(r, s, t) ==
    [r EXCEPT !.snap = r.cur, !.has = TRUE,
              !.ser = [v \in DOMAIN r.ser |-> Push(r.ser[v], [s |-> s, t |-> t, x |-> r.cur[v]])],
              !.tim = Push(r.tim, [s |-> s, t |-> t])]
Note(i, s, t) == [i |-> i, s |-> s, t |-> t, cur |-> D.sims[i].cur]
Initialized(s, t) ==
    /\ D' = [D EXCEPT !.sims = [i \in DOMAIN D.sims |-> Observe(D.sims[i], s, t)], !.init = TRUE]
    /\ UNCHANGED cfg
StepDone(i, s, t) ==
    /\ i \in DOMAIN D.sims
    /\ D' = [D EXCEPT !.sims[i] = Observe(@, s, t)]
    /\ UNCHANGED cfg
Start(i, v, ok) ==
    LET can == i \in DOMAIN D.sims /\ cfg.sims[i][v].ty \in {1, 2} IN
    /\ ok = can
    /\ D' = IF can THEN [D EXCEPT !.sims[i].ser = Put(@, v, <<>>)] ELSE D
    /\ UNCHANGED cfg
Stop(i, v, ok) ==
    LET can == i \in DOMAIN D.sims /\ cfg.sims[i][v].ty \in {1, 2} IN
    /\ ok = can
    /\ D' = IF can THEN [D EXCEPT !.sims[i].ser = Del(@, v)] ELSE D
    /\ UNCHANGED cfg

---------------------------------------------------------------------------
(* Queries *)
Last(i, vs) == [k \in DOMAIN vs |-> D.sims[i].snap[vs[k]]]
Observed(i, v) == i \in DOMAIN D.sims /\ v \in DOMAIN D.sims[i].ser
Samples(i, v, from, n) ==
    SelectSeq(D.sims[i].ser[v], LAMBDA e : e.s >= from /\ e.s < from + n)
\* Pairs of equal step number within the window
Sync(i, v, j, w, from, n) ==
    LET a == D.sims[i].ser[v]
        b == D.sims[j].ser[w]
        both(e) == e.s >= from /\ e.s < from + n /\ \E k \in DOMAIN b : b[k].s = e.s
        q == SelectSeq(a, both)
    IN [k \in DOMAIN q |-> <<q[k].x, (CHOOSE e \in {b[m] : m \in DOMAIN b} : e.s = q[k].s).x>>]
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : y >= x
Steps(q, P(_)) == {q[k].s : k \in {m \in DOMAIN q : P(q[m].t)}}
\* the recorded steps that enclose [t1, t2] most closely
Range(i, t1, t2) ==
    LET q == D.sims[i].tim
        lo(t) == t <= t1
        hi(t) == t >= t2
        any(t) == TRUE
        A == Steps(q, lo)
        B == Steps(q, hi)
    IN <<IF A # {} THEN MaxS(A) ELSE MinS(Steps(q, any)), IF B # {} THEN MinS(B) ELSE MaxS(Steps(q, any))>>
LastFor(i, d) ==
    LET q == D.sims[i].tim
        e == q[Len(q)]
    IN <<Range(i, e.t - d, e.t)[1], e.s>>
=============================================================================
