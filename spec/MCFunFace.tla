------------------------------ MODULE MCFunFace -----------------------------
(* FunFace with functions that count, driven by a round as fixed_step_algorithm *)
(* makes it: M is what a function would have, were each value passed on at once *)
(* and at its joint points only.                                                *)
EXTENDS FunFace
CONSTANTS MaxSteps, Rates
VARIABLES M, made
vars == <<R, M, made>>
At == <<0, 0>>
Val(s, k) == 10 * k + s
OutOf(f, I, m) == [ty \in Types |-> IF ty = 0 THEN I[At] + 100 * m ELSE 0]
Track == M' = IF R'.todo = {} /\ R'.ph \in {"iter", "iter2", "sync"}
              THEN [f \in Funs |-> LET S == {k \in R'.sf : k.f = f /\ DueTo(R', k)} IN
                      IF S # {} THEN R'.O[(CHOOSE k \in S : TRUE).s][At] ELSE IF f \in DOMAIN M THEN M[f] ELSE 0]
              ELSE M
Init == R = InitR /\ M = <<>> /\ made = <<0, 0>>
U == UNCHANGED <<M, made>>
Build == /\ U
         /\ \/ (Len(R.D) < 2 /\ \E d \in Rates : AddSim(d))
            \/ (Len(R.D) = 2 /\ R.funs < 1 /\ AddFun)
            \/ (Len(R.D) = 2 /\ R.funs = 1 /\ \E s \in Sims : ConnectTo(s, At, 1, At) \/ ConnectFrom(1, 0, s, At))
Run == \/ (R.funs = 1 /\ R.c < MaxSteps /\ Begin /\ UNCHANGED made /\ Track)
       \/ \E ph \in {"setup", "start", "step"}, s \in Sims :
            /\ Call(ph, s, Next(R, ph).inp[s], [v \in Slots |-> IF v = At THEN Val(s, made[s] + 1) ELSE 0], R.D[s])
            /\ made' = [made EXCEPT ![s] = @ + 1]
            /\ Track
       \/ \E f \in Funs : U /\ FunCalc(f, R.fin[f], OutOf(f, R.fin[f], R.c), 0) /\ R.n[f] < 1
       \/ \E f \in Funs : U /\ FunSet(f, At, R.fin[f][At], 0) /\ R.n[f] = 0
       \/ \E f \in Funs : U /\ FunGet(f, 0, R.fout[f][0])
       \/ Return(FALSE) /\ U
MNext == Build \/ Run
Spec == Init /\ [][MNext]_vars
Passed == Passing /\ M # <<>> /\ R.todo = {} => \A f \in DOMAIN M : R.fin[f][At] = M[f]
\* a simulator's input from a function: calculated at the last point at which all that it feeds were done
Joint == [][(R.ph = "sync" /\ R'.ph = "idle") =>
              \A k \in R.fs : Divides(Rate(k.f), R.c) => R'.inp[k.s][k.at] \div 100 = R.c]_vars
\* and it keeps it until the next
Kept == [][(R.ph = "sync" /\ R'.ph = "idle") => \A k \in R.fs : ~Divides(Rate(k.f), R.c) => R'.inp[k.s][k.at] = R.inp[k.s][k.at]]_vars
=============================================================================
