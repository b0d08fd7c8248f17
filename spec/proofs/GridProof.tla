------------------------------ MODULE GridProof ------------------------------
(* For any simulators and any step sizes: Near, Joint and GapFree.            *)
EXTENDS StepGrid, TLAPS
ASSUME DAssume == D \in [Sims -> Nat \ {0}]
\* the definition of \div and % (the provers know only the ranges)
ASSUME Euclid == \A a \in Nat, d \in Nat \ {0} : a = d * (a \div d) + (a % d)
LEMMA Range == \A a \in Nat, d \in Nat \ {0} : 0 <= a % d /\ a % d < d /\ a % d \in Nat /\ a \div d \in Nat
  BY SMT
LEMMA Same == \A x, y, d \in Nat : x * d <= y * d /\ y * d < x * d + d => x * d = y * d
  <1> SUFFICES ASSUME NEW x \in Nat, NEW y \in Nat, NEW d \in Nat, x * d <= y * d, y * d < x * d + d, x # y PROVE FALSE
    OBVIOUS
  <1>1. CASE x + 1 <= y
    <2>1. (x + 1) * d <= y * d
       BY <1>1
    <2>2. (x + 1) * d = x * d + d
       OBVIOUS
    <2> QED BY <2>1, <2>2
  <1>2. CASE y + 1 <= x
    <2>1. (y + 1) * d <= x * d
       BY <1>2
    <2>2. (y + 1) * d = y * d + d
       OBVIOUS
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>1, <1>2
LEMMA Mult == ASSUME NEW a \in Nat, NEW d \in Nat \ {0} PROVE a % d = 0 <=> \E k \in Nat : a = k * d
  <1>1. ASSUME a % d = 0 PROVE \E k \in Nat : a = k * d
    <2>1. a = (a \div d) * d
      BY <1>1, Euclid, Range
    <2> QED BY <2>1, Range
  <1>2. ASSUME NEW k \in Nat, a = k * d PROVE a % d = 0
    <2> DEFINE q == a \div d  r == a % d
    <2>1. q \in Nat /\ r \in Nat /\ r < d
      BY Range
    <2>2. a = q * d + r
      BY Euclid, <2>1
    <2>3. q * d \in Nat /\ k * d \in Nat
      BY <2>1
    <2> HIDE DEF q, r
    <2>4. q * d <= k * d /\ k * d < q * d + d
      BY <1>2, <2>1, <2>2, <2>3
    <2>5. q * d = k * d
      BY <2>1, <2>4, Same
    <2>6. r = 0
      BY <1>2, <2>1, <2>2, <2>3, <2>5
    <2> QED BY <2>6 DEF r
  <1> QED BY <1>1, <1>2
LEMMA Unique == ASSUME NEW a \in Nat, NEW b \in Nat, NEW d \in Nat \ {0}, a % d = 0, b % d = 0, a <= b, b < a + d PROVE a = b
  <1>1. PICK x \in Nat : a = x * d
    BY Mult
  <1>2. PICK y \in Nat : b = y * d
    BY Mult
  <1> QED BY <1>1, <1>2, Same
LEMMA Plus == ASSUME NEW a \in Nat, NEW d \in Nat \ {0}, a % d = 0 PROVE (a + d) % d = 0
  <1>1. PICK x \in Nat : a = x * d
    BY Mult
  <1>2. a + d = (x + 1) * d
    BY <1>1
  <1>3. a + d \in Nat /\ x + 1 \in Nat
    OBVIOUS
  <1> QED BY <1>2, <1>3, Mult
LEMMA Zero == ASSUME NEW d \in Nat \ {0} PROVE 0 % d = 0
  <1>1. 0 = 0 * d
    OBVIOUS
  <1> QED BY <1>1, Mult
Typed == n \in Nat /\ iv \in [Sims -> [b : Nat, e : Nat]]
\* before the first step the intervals are empty; they end on the grid, at or after the common time
End(i) == iv[i].e % D[i] = 0 /\ n <= iv[i].e /\ iv[i].e < n + D[i]
Begun(i) == n > 0 => iv[i].b < n
Inv == Typed /\ \A i \in Sims : End(i) /\ Begun(i)
LEMMA Due == ASSUME Inv, NEW i \in Sims PROVE n % D[i] = 0 <=> iv[i].e = n
  <1> USE DAssume DEF Inv, Typed, End
  <1>1. D[i] \in Nat \ {0} /\ n \in Nat /\ iv[i].e \in Nat
    OBVIOUS
  <1>2. ASSUME n % D[i] = 0 PROVE iv[i].e = n
    BY <1>1, <1>2, Unique
  <1> QED BY <1>1, <1>2
LEMMA First == InitG => Inv
  <1> SUFFICES ASSUME InitG PROVE Inv
    OBVIOUS
  <1> USE DAssume DEF InitG
  <1>1. Typed
    BY DEF Typed
  <1>2. ASSUME NEW i \in Sims PROVE End(i) /\ Begun(i)
    <2>1. D[i] \in Nat \ {0}
      OBVIOUS
    <2>2. 0 % D[i] = 0
      BY <2>1, Zero
    <2> QED BY <2>1, <2>2 DEF End, Begun
  <1> QED BY <1>1, <1>2 DEF Inv
LEMMA Keeps == ASSUME Inv, NextG PROVE Inv' /\ \A i \in Sims : iv'[i] # iv[i] => iv'[i].b = iv[i].e
  <1> USE DAssume DEF NextG, Typed
  <1>1. Typed'
    BY DEF Inv
  <1>2. ASSUME NEW i \in Sims PROVE End(i)' /\ Begun(i)' /\ (iv'[i] # iv[i] => iv'[i].b = iv[i].e)
    <2>1. D[i] \in Nat \ {0} /\ n \in Nat /\ iv[i].e \in Nat /\ iv[i].b \in Nat
      BY DEF Inv
    <2>2. End(i) /\ Begun(i)
      BY DEF Inv
    <2>3. CASE n % D[i] = 0
      <3>1. iv'[i] = [b |-> n, e |-> n + D[i]]
        BY <2>3
      <3>2. iv[i].e = n
        BY <2>3, Due
      <3>3. (n + D[i]) % D[i] = 0
        BY <2>1, <2>3, Plus
      <3>4. n' = n + 1
        OBVIOUS
      <3> QED BY <2>1, <3>1, <3>2, <3>3, <3>4 DEF End, Begun
    <2>4. CASE n % D[i] # 0
      <3>1. iv'[i] = iv[i]
        BY <2>4
      <3>2. iv[i].e # n
        BY <2>4, Due
      <3>4. n' = n + 1
        OBVIOUS
      <3>5. n > 0
        <4>1. n = 0 => n % D[i] = 0
          BY <2>1, Zero
        <4> QED BY <2>1, <2>4, <4>1
      <3> QED BY <2>1, <2>2, <3>1, <3>2, <3>4, <3>5 DEF End, Begun
    <2> QED BY <2>3, <2>4
  <1> QED BY <1>1, <1>2 DEF Inv
LEMMA Implied == ASSUME Inv PROVE Near /\ Joint
  <1>1. Near
    BY DEF Inv, End, Begun, Near
  <1>2. Joint
    BY Due DEF Joint
  <1> QED BY <1>1, <1>2
THEOREM Safe == SpecG => [](Near /\ Joint) /\ GapFree
  <1>1. Inv /\ [NextG]_gvars => Inv'
    <2>1. ASSUME Inv, UNCHANGED gvars PROVE Inv'
      BY <2>1 DEF Inv, Typed, End, Begun, gvars
    <2> QED BY <2>1, Keeps
  <1>2. SpecG => []Inv
    BY <1>1, First, PTL DEF SpecG
  <1>3. Inv /\ [NextG]_gvars => [\A i \in Sims : iv'[i] # iv[i] => iv'[i].b = iv[i].e]_gvars
    BY Keeps
  <1>4. Inv => Near /\ Joint
    BY Implied
  <1> QED BY <1>2, <1>3, <1>4, PTL DEF SpecG, GapFree
=============================================================================
