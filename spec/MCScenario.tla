----------------------------- MODULE MCScenario -----------------------------
(* Every list of up to MaxEv events over two variables and times 0..2, with    *)
(* every end time; steps of any size; abort and reload at any point.           *)
EXTENDS Scenario, TLC
CONSTANTS MaxEv, MaxNow, MaxLoads
VARIABLES now, loads, full
mvars == <<cfg, Z, now, loads, full>>
EvSet == {[t |-> t, i |-> 1, v |-> v, m |-> m] : t \in {0, 1, 3}, v \in {1, 2}, m \in {<<1, 5>>, <<2, 1>>, <<0, 0>>}}
Lists == UNION {[1..n -> EvSet] : n \in 0..MaxEv}
MInit == cfg = 0 /\ InitZ /\ now = 0 /\ loads = 0 /\ full = <<>>
MLoad == \E q \in Lists, e \in {NoEnd, 0, 2} : loads < MaxLoads /\ loads' = loads + 1 /\ Load(q, e, now) /\ full' = q /\ UNCHANGED now
MAbort == Z.run /\ Abort /\ UNCHANGED <<now, loads, full>>
MStep == \E d \in {1, 2} : now + d <= MaxNow /\ now' = now + d /\ Step(now) /\ UNCHANGED <<loads, full>>
MNext == MLoad \/ MAbort \/ MStep
Spec == MInit /\ [][MNext]_mvars
Count(q, e) == Cardinality({k \in DOMAIN q : q[k] = e})
\* each event is either waiting or has fired, never both, never twice
OnceEach == Z.run => \A e \in EvSet : Count(full, e) = Count(Z.rem, e) + Count([k \in DOMAIN Z.fired |-> Z.fired[k].e], e)
NotEarly == \A k \in DOMAIN Z.fired : Z.fired[k].at >= Z.fired[k].e.t
InTimeOrder == \A j, k \in DOMAIN Z.fired : (j < k /\ Z.fired[j].at = Z.fired[k].at) => Z.fired[j].e.t <= Z.fired[k].e.t
AllUndone == ~Z.run => Z.mod = <<>>
OnlyTouched == DOMAIN Z.mod \subseteq Z.touched
ReplaceUndoes == [][loads' # loads => Z'.mod = <<>>]_mvars
=============================================================================
