----------------------------- MODULE RWLockProof -----------------------------
(* For any set of users and files: locks exclude each other as they should.  *)
EXTENDS RWLock, TLAPS
Excluded == \A u, v \in Users : u # v => \A a \in H[u], b \in H[v] : a.f = b.f => a.m = "S" /\ b.m = "S"
Inv == H \in [Users -> SUBSET [f : Files, m : {"X", "S"}]] /\ Excluded
THEOREM Safe == SpecH => []Excluded
<1>1. InitH => Inv
  BY DEF InitH, Inv, Excluded
<1>2. Inv /\ [NextH]_H => Inv'
  <2> SUFFICES ASSUME Inv, [NextH]_H PROVE Inv'
    OBVIOUS
  <2> USE DEF Inv, Excluded
  <2>1. CASE \E u \in Users, f \in Files, m \in {"X", "S"} : Grant(u, f, m)
    BY <2>1 DEF Grant, Compatible, Has
  <2>2. CASE End
    BY <2>2 DEF End
  <2>3. CASE \E u \in Users : Give(u)
    BY <2>3 DEF Give
  <2>4. CASE UNCHANGED H
    BY <2>4
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF NextH
<1> QED BY <1>1, <1>2, PTL DEF SpecH, Inv
=============================================================================
