------------------------------- MODULE RWLock -------------------------------
(***************************************************************************)
(* What users of a file lock rely on, whoever implements it: H[u] is the    *)
(* set of locks [f, m] that user u has, m being "X" (alone) or "S" (with    *)
(* others).  FileLock implements this for threads of several processes;     *)
(* CacheLocks uses nothing more of it.                                      *)
(***************************************************************************)
CONSTANTS Users, Files
VARIABLE H
Has(u, f) == {h \in H[u] : h.f = f}
Compatible(u, f, m) == \A v \in Users \ {u} : \A h \in Has(v, f) : m = "S" /\ h.m = "S"
InitH == H = [u \in Users |-> {}]
Grant(u, f, m) == Has(u, f) = {} /\ Compatible(u, f, m) /\ H' = [H EXCEPT ![u] = @ \cup {[f |-> f, m |-> m]}]
Give(u) == \E K \in SUBSET H[u] : H' = [H EXCEPT ![u] = K]
\* users that end together lose all they have
End == \E D \in SUBSET Users : H' = [u \in Users |-> IF u \in D THEN {} ELSE H[u]]
NextH == End \/ \E u \in Users : Give(u) \/ \E f \in Files, m \in {"X", "S"} : Grant(u, f, m)
SpecH == InitH /\ [][NextH]_H
=============================================================================
