----------------------------- MODULE MCFunction ----------------------------
EXTENDS Function, TLC
CONSTANTS MaxN, MaxOps
VARIABLES ops, calc  \* calc: inputs unchanged since the last calculation
vars == <<F, ops, calc>>
Init == F = None /\ ops = 0 /\ calc = FALSE
Vals == {-16, 0, 8}
PSets == {<<>>, <<<<0, PINT, 0>>>>, <<<<0, PINT, 2>>, <<2, PINT, MaxN>>>>, <<<<1, PTYPE, 2>>>>, <<<<1, PTYPE, 4>>>>,
          <<<<1, PREAL, 8>>>>, <<<<0, PREAL, 4>>, <<1, PREAL, -32>>>>}
Refs == {<<g, a, 0, b>> : g \in 0..1, a \in 0..1, b \in 0..1}
Next ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ \/ \E k \in 1..2, P \in PSets : Inst(k, P, CanInst(k, P)) /\ calc' = FALSE
       \/ \E n \in 0..2, d \in 0..2 : MakeSum(2, n, d, n >= 1 /\ d >= 1) /\ calc' = FALSE
       \/ F.kind # 0 /\ \E r \in Refs, x \in Vals : Set(F.ty, r, x, IsIn(r)) /\ calc' = (calc /\ F' = F)
       \/ F.kind # 0 /\ Calculate /\ calc' = TRUE
Spec == Init /\ [][Next]_vars
RECURSIVE Add(_, _)
Add(d, k) == IF k > F.n THEN 0 ELSE F.in[(k - 1) * F.dim + d] + Add(d, k + 1)
(* right after a calculation the outputs are the described function of the inputs *)
Outputs == calc => IF F.kind = 1 THEN 16 * F.out[1] = 16 * F.off + F.fac * F.in[1]
                                 ELSE \A d \in 1..F.dim : F.out[d] = Add(d, 1)
(* group sizes, dimensions and types follow from the parameters *)
Shape == F.kind # 0 =>
    LET D == Description(F.kind) IN
    /\ D[1].cnt = F.n /\ D[1].ios[1].cnt = F.dim /\ D[2].cnt = 1 /\ D[2].ios[1].cnt = F.dim
    /\ D[1].ios[1].ty = F.ty /\ D[2].ios[1].ty = F.ty /\ F.n >= 1 /\ F.dim >= 1 /\ F.ty \in {1, 2}
    /\ Cardinality({r \in (0..3) \X (0..3) \X (0..1) \X (0..3) : IsIn(r)}) = Len(F.in)
    /\ Cardinality({r \in (0..3) \X (0..3) \X (0..1) \X (0..3) : IsOut(r)}) = Len(F.out)
=============================================================================
