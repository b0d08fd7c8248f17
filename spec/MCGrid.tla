------------------------------- MODULE MCGrid -------------------------------
(***************************************************************************)
(* Cosim's steps are those of StepGrid, for which the guarantees about time *)
(* are proved without bounds (proofs/GridProof): each combination of step   *)
(* sizes is one run.                                                         *)
(***************************************************************************)
EXTENDS MCCosim
CONSTANTS H1, H2, H3
GridConfigs == {Base(<<Sim(H1, 0, 0, 1), Sim(H2, 0, 0, 2), Sim(H3, 0, 0, 3)>>, <<>>, <<>>, <<>>)}
Df == [i \in 1..3 |-> Max(1, <<H1, H2, H3>>[i] \div 10)]
\* the interval simulator i had when the step that is going on, if any, began
Steps(i) == IF i > Len(S.sims) THEN 0
            ELSE S.sims[i].n - (IF S.ph = "step" /\ S.last % Df[i] = 0 /\ i \notin S.pend \cup S.busy THEN 1 ELSE 0)
End(i) == (S.sims[i].end - cfg.start) \div cfg.base - Df[i] * (S.sims[i].n - Steps(i))
Interval(i) == IF Steps(i) = 0 THEN [b |-> 0, e |-> 0] ELSE [b |-> End(i) - Df[i], e |-> End(i)]
Grid == INSTANCE StepGrid WITH Sims <- 1..3, D <- Df, n <- S.last, iv <- [i \in 1..3 |-> Interval(i)]
IsGrid == Grid!SpecG
GridNear == Grid!Near
GridJoint == Grid!Joint
=============================================================================
