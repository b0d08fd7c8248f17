------------------------------ MODULE StepGrid ------------------------------
(***************************************************************************)
(* What fixed_step_algorithm promises about time, for any simulators and    *)
(* step sizes (in base steps): n base steps are done; iv[i] is the last      *)
(* interval over which simulator i was stepped.  Cosim implements it (TLC),  *)
(* and proofs/GridProof shows what follows, without bounds.                  *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Sims, D
VARIABLES n, iv
gvars == <<n, iv>>
InitG == n = 0 /\ iv = [i \in Sims |-> [b |-> 0, e |-> 0]]
NextG == n' = n + 1 /\ iv' = [i \in Sims |-> IF n % D[i] = 0 THEN [b |-> n, e |-> n + D[i]] ELSE iv[i]]
SpecG == InitG /\ [][NextG]_gvars
\* a simulator's intervals follow one another without gap or overlap
GapFree == [][\A i \in Sims : iv'[i] # iv[i] => iv'[i].b = iv[i].e]_gvars
\* no simulator is behind the common time, and none is ahead of it by one of its own steps
Near == \A i \in Sims : n <= iv[i].e /\ iv[i].e < n + D[i] /\ (n > 0 => iv[i].b < n)
\* the joint points of two simulators are where both have just ended an interval
Joint == \A i, j \in Sims : (n % D[i] = 0 /\ n % D[j] = 0) <=> (iv[i].e = n /\ iv[j].e = n)
=============================================================================
