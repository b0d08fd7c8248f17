------------------------------ MODULE MCPacing ------------------------------
EXTENDS Pacing
VARIABLE k
vars == <<P, k>>
Sets == {[on |-> FALSE, fn |-> 1, fd |-> 1], [on |-> TRUE, fn |-> 1, fd |-> 2], [on |-> TRUE, fn |-> 2, fd |-> 1], [on |-> TRUE, fn |-> 0, fd |-> 1]}
MInit == k = 0 /\ \E s \in Sets : P = InitP(s)
Tick == 0..7
Next == k < 6 /\ k' = k + 1 /\ \E d \in Tick :
    LET w == P.w + d IN
    RunBegin(w) \/ StepEnd(1, w) \/ Resume(w, TRUE) \/ Resume(w, FALSE) \/ \E s \in Sets : Configure(s, w)
Spec == MInit /\ [][Next]_vars
\* never ahead of real time by more than the tolerance once the pacing is in force
NeverAhead == (P.ph = "step" /\ Active(P.seen)) => (P.w - P.w0) * P.seen.fn >= (P.t - P.t0) * P.seen.fd * Unit - Tol * P.seen.fn
=============================================================================
