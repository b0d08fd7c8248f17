------------------------------ MODULE Function -----------------------------
(* One instance of a built-in function: linear transformation (kind 1) or   *)
(* vector sum (kind 2).                                                     *)
EXTENDS FunTypes
VARIABLE F
None == [kind |-> 0, n |-> 0, ty |-> 1, dim |-> 0, off |-> 0, fac |-> 0, in |-> <<>>, out |-> <<>>]
TypeOf(kind) == IF kind = 1 THEN LinearType ELSE SumType
Zeros(n) == [k \in 1..n |-> 0]
Linear(off, fac) == [kind |-> 1, n |-> 1, ty |-> 1, dim |-> 1, off |-> off, fac |-> fac, in |-> Zeros(1), out |-> Zeros(1)]
Sum(ty, n, dim) == [kind |-> 2, n |-> n, ty |-> ty, dim |-> dim, off |-> 0, fac |-> 0, in |-> Zeros(n * dim), out |-> Zeros(dim)]
(* only reals and integers can be added *)
CanInst(kind, P) == GivenOk(TypeOf(kind), P) /\ (kind = 2 => ParamValue(SumType, P, 1) \in {1, 2})
Inst(kind, P, ok) ==
    /\ ok = CanInst(kind, P)
    /\ F' = IF ~ok THEN F
            ELSE IF kind = 1 THEN Linear(ParamValue(LinearType, P, 0), ParamValue(LinearType, P, 1))
            ELSE Sum(ParamValue(SumType, P, 1), ParamValue(SumType, P, 0), ParamValue(SumType, P, 2))
MakeLinear(off, fac) == F' = Linear(off, fac)
MakeSum(ty, n, dim, ok) == ok = (n >= 1 /\ dim >= 1) /\ F' = IF ok THEN Sum(ty, n, dim) ELSE F

IsIn(r)  == r[1] = 0 /\ r[2] >= 0 /\ r[2] < F.n /\ r[3] = 0 /\ r[4] >= 0 /\ r[4] < F.dim
IsOut(r) == r[1] = 1 /\ r[2] = 0 /\ r[3] = 0 /\ r[4] >= 0 /\ r[4] < F.dim
At(r) == r[2] * F.dim + r[4] + 1
Set(ty, r, x, ok) ==
    /\ ok = (ty = F.ty /\ IsIn(r))
    /\ F' = IF ok THEN [F EXCEPT !.in[At(r)] = x] ELSE F
Get(ty, r, x, ok) ==
    /\ ok = (ty = F.ty /\ (IsIn(r) \/ IsOut(r)))
    /\ ok => x = (IF IsIn(r) THEN F.in[At(r)] ELSE F.out[r[4] + 1])
    /\ UNCHANGED F
RECURSIVE Total(_, _)
Total(d, k) == IF k = 0 THEN 0 ELSE F.in[(k - 1) * F.dim + d] + Total(d, k - 1)
Calculate ==
    F' = IF F.kind = 1 THEN [F EXCEPT !.out = <<F.off + (F.fac * F.in[1]) \div 16>>]
         ELSE [F EXCEPT !.out = [d \in 1..F.dim |-> Total(d, F.n)]]
Description(kind) ==
    IF kind = 1 THEN Describe(LinearType, <<>>)
    ELSE Describe(SumType, <<<<0, PINT, F.n>>, <<1, PTYPE, F.ty>>, <<2, PINT, F.dim>>>>)
=============================================================================
