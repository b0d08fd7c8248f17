------------------------------- MODULE MCSeries -----------------------------
(***************************************************************************)
(* Bounded environment of Series: two simulators stepping at their own rate, *)
(* observation switched on and off at any time.  Every query is compared with *)
(* its declarative reading over the complete history.                        *)
(***************************************************************************)
EXTENDS Series
CONSTANTS Buf, MaxStep, MaxOps
VARIABLES n, ops, H, since   \* step counter; budget; all notifications; per variable: since which notification it is observed
mvars == <<cfg, D, n, ops, H, since>>
Sims == {1, 2}
MInit ==
    /\ cfg = [buf |-> Buf, sims |-> <<<<[ty |-> 1], [ty |-> 3]>>, <<[ty |-> 2]>>>>]
    /\ InitD /\ n = 0 /\ ops = 0 /\ H = <<>> /\ since = <<>>
Op == ops < MaxOps /\ ops' = ops + 1
Log(I, s, t) == H' = H \o SelectSeq([k \in 1..2 |-> IF k \in I THEN [i |-> k, s |-> s, t |-> t, cur |-> D.sims[k].cur] ELSE [i |-> 0]],
                                   LAMBDA e : e.i # 0)
MAdd == \E i \in Sims : ~D.init /\ Add(i, 7) /\ UNCHANGED <<n, ops, H, since>>
MInitialized == ~D.init /\ DOMAIN D.sims = Sims /\ Initialized(0, 7) /\ Log(Sims, 0, 7) /\ UNCHANGED <<n, ops, since>>
MChange == \E i \in DOMAIN D.sims : \E v \in Vars(i) : Op /\ Change(i, v, n * 3 + i) /\ D.sims[i].cur[v] # n * 3 + i /\ UNCHANGED <<n, H, since>>
MStep ==
    /\ D.init /\ n < MaxStep
    /\ n' = n + 1
    /\ \E i \in Sims : StepDone(i, n + 1, 7 + 2 * (n + 1)) /\ Log({i}, n + 1, 7 + 2 * (n + 1))
    /\ UNCHANGED <<ops, since>>
MStart == \E i \in DOMAIN D.sims : \E v \in Vars(i) : Op /\ Start(i, v, TRUE) /\ since' = Put(since, <<i, v>>, Len(H)) /\ UNCHANGED <<n, H>>
MStop == \E i \in DOMAIN D.sims : \E v \in DOMAIN D.sims[i].ser : Op /\ Stop(i, v, TRUE) /\ since' = Del(since, <<i, v>>) /\ UNCHANGED <<n, H>>
MNext == MAdd \/ MInitialized \/ MChange \/ MStep \/ MStart \/ MStop
Spec == MInit /\ [][MNext]_mvars

\* what history says
Notes(i) == SelectSeq([k \in DOMAIN H |-> IF H[k].i = i THEN [k |-> k, h |-> H[k]] ELSE [k |-> 0]], LAMBDA e : e.k # 0)
LastN(q, m) == SubSeq(q, IF Len(q) > m THEN Len(q) - m + 1 ELSE 1, Len(q))
DeclSnap(i) == LET q == Notes(i) IN q[Len(q)].h.cur
DeclBuffer(i, v) ==
    LET q == SelectSeq(Notes(i), LAMBDA e : e.k > since[<<i, v>>]) IN LastN(q, Buf)
LastValue == \A i \in DOMAIN D.sims : Len(Notes(i)) > 0 => D.sims[i].snap = DeclSnap(i)
SeriesExact ==
    \A i \in DOMAIN D.sims : \A v \in DOMAIN D.sims[i].ser :
        LET q == DeclBuffer(i, v) IN
        D.sims[i].ser[v] = [k \in DOMAIN q |-> [s |-> q[k].h.s, t |-> q[k].h.t, x |-> q[k].h.cur[v]]]
Queries ==
    \A i \in DOMAIN D.sims : \A v \in DOMAIN D.sims[i].ser : \A f \in 0..MaxStep : \A m \in 0..MaxStep :
        LET q == Samples(i, v, f, m) IN
        /\ \A k \in DOMAIN q : q[k].s \in f..(f + m - 1) /\ (k > 1 => q[k].s > q[k-1].s)
        /\ Len(q) <= m
        /\ \A e \in {D.sims[i].ser[v][k] : k \in DOMAIN D.sims[i].ser[v]} : e.s \in f..(f + m - 1) => \E k \in DOMAIN q : q[k] = e
SyncSameStep ==
    \A i, j \in DOMAIN D.sims : \A v \in DOMAIN D.sims[i].ser, w \in DOMAIN D.sims[j].ser :
        LET q == Sync(i, v, j, w, 0, MaxStep + 1) IN
        /\ Len(q) = Cardinality({e.s : e \in {D.sims[i].ser[v][k] : k \in DOMAIN D.sims[i].ser[v]}} \cap
                                {e.s : e \in {D.sims[j].ser[w][k] : k \in DOMAIN D.sims[j].ser[w]}})
        /\ \A k \in DOMAIN q : \E a \in DOMAIN D.sims[i].ser[v], b \in DOMAIN D.sims[j].ser[w] :
              D.sims[i].ser[v][a].s = D.sims[j].ser[w][b].s /\ q[k] = <<D.sims[i].ser[v][a].x, D.sims[j].ser[w][b].x>>
\* every observed sample's step has its time in the time buffer
TimesKnown == \A i \in DOMAIN D.sims : \A v \in DOMAIN D.sims[i].ser : \A k \in DOMAIN D.sims[i].ser[v] :
    \E m \in DOMAIN D.sims[i].tim : D.sims[i].tim[m].s = D.sims[i].ser[v][k].s /\ D.sims[i].tim[m].t = D.sims[i].ser[v][k].t
=============================================================================
