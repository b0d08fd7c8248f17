------------------------------ MODULE MCFileLog -----------------------------
EXTENDS FileLog
CONSTANTS MaxStep, MaxOps, Stamped, Ds
VARIABLES n, ops, due     \* due: per simulator, the steps whose rows must be in its files
mvars == <<cfg, F, n, ops, due>>
V(a, b, c) == [name |-> a, ty |-> b, ca |-> c, ref |-> 0]
MInit ==
    /\ cfg \in {[mode |-> m, stamped |-> Stamped, conf |-> <<[name |-> "a", dec |-> d, vars |-> q]>>,
                 sims |-> <<[name |-> "a", vars |-> <<V("x", 3, 2), V("y", 1, 5), V("z", 1, 1)>>],
                            [name |-> "b", vars |-> <<V("x", 1, 2)>>]>>] : m \in {"default", "config"}, d \in Ds, q \in {<<>>, <<"z", "x">>, <<"y">>}}
    /\ InitF /\ n = 0 /\ ops = 0 /\ due = [i \in {1, 2} |-> <<>>]
Op == ops < MaxOps /\ ops' = ops + 1
MAdd == \E i \in {1, 2} : n = 0 /\ Add(i, TRUE) /\ UNCHANGED <<n, ops, due>>
Need(i, s) == F.rec /\ i \in DOMAIN F.w /\ s % Dec(i) = 0
MInitialized == n = 0 /\ n' = 1 /\ Initialized(0, 0) /\ due' = [i \in {1, 2} |-> IF Need(i, 0) THEN <<0>> ELSE <<>>] /\ UNCHANGED ops
MStep == n > 0 /\ n < MaxStep /\ n' = n + 1 /\ \E i \in {1, 2} : StepDone(i, n, 10 * n) /\ due' = [due EXCEPT ![i] = IF Need(i, n) THEN Append(@, n) ELSE @] /\ UNCHANGED ops
MStart == Op /\ ~F.rec /\ Start(TRUE) /\ UNCHANGED <<n, due>>
MStop == Op /\ F.rec /\ Stop(TRUE) /\ UNCHANGED <<n, due>>
MChange == Op /\ \E i \in {1, 2} : \E v \in DOMAIN F.cur[i] : Change(i, v, n + 1) /\ UNCHANGED <<n, due>>
MNext == MAdd \/ MInitialized \/ MStep \/ MStart \/ MStop \/ MChange
Spec == MInit /\ [][MNext]_mvars
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Rows(i) == SelectSeq(Flat(F.w[i].files), LAMBDA e : e[1] = "r")
ExactRows == \A i \in DOMAIN F.w : [k \in DOMAIN Rows(i) |-> Rows(i)[k][3]] = due[i]
Complete == \A i \in DOMAIN F.w : \A f \in DOMAIN F.w[i].files : \A k \in DOMAIN F.w[i].files[f] :
    LET e == F.w[i].files[f][k] IN Len(e) = Len(Columns(i)) + (IF e[1] = "h" THEN 1 ELSE 3)
HeaderFirst == \A i \in DOMAIN F.w : \A f \in DOMAIN F.w[i].files : F.w[i].files[f][1][1] = "h"
Quiet == [][~F.rec => (\A i \in DOMAIN F.w : i \in DOMAIN F'.w => F'.w[i].files = F.w[i].files)]_mvars
=============================================================================
