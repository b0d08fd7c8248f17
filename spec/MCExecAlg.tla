----------------------------- MODULE MCExecAlg ------------------------------
EXTENDS ExecAlg
CONSTANTS MaxOps, MaxSteps, MaxNow, MaxSims
VARIABLE ops
vars == <<R, ops>>
S(i, r) == <<"s", i, 0, r>>
F(io) == <<"f", 0, 0, 0, 0, io, 0>>
Outs == {S(0, 0), S(1, 0), F(1)}
Ins == {S(0, 2), S(1, 2), F(0)}
Fin(k) == IF k = 0 THEN {} ELSE 0..(R.sims - 1)
Op == \/ (R.sims < MaxSims /\ AddSim(1)) \/ (R.funs < 1 /\ AddFun) \/ (Len(R.obs) < 2 /\ AddObs) \/ (Len(R.mans) < 1 /\ AddMan)
      \/ \E o \in Outs, i \in Ins : (o[1] = "s" \/ i[1] = "s") /\ Connect(o, i)
      \/ InitialValue \/ Describe(0) \/ Move
      \/ R.n < MaxSteps /\ Step
      \/ R.n < MaxSteps /\ \E T \in 0..MaxNow : Until(TRUE, T)
      \/ R.n < MaxSteps /\ Until(FALSE, 0)
Alg == \/ AlgSetup(R.now, FALSE)
       \/ (R.ph = "alg" /\ R.op.k = "addsim" /\ AlgAddSim(R.op.i, R.op.hint))
       \/ (R.ph = "alg" /\ R.op.k = "addfun" /\ AlgAddFun(R.op.i))
       \/ (R.ph = "alg" /\ R.op.k = "conn" /\ \E f \in {0, 7} : AlgConnect(R.op.o, R.op.i, f))
       \/ \E f \in {0, 7} : AlgInit(f)
       \/ R.n < MaxSteps /\ \E dt \in {0, 1, 2, 300}, k \in {0, 1}, stop \in BOOLEAN : AlgStep(R.now, Running, dt, Fin(k), stop /\ R.op.k = "until", 0)
       \/ AlgStep(R.now, Running, 0, {}, FALSE, 7)
Callback == \/ \E o \in DOMAIN R.obs : \E c \in R.obs[o] : ObsCb(o, c, R.n, R.dt, R.now)
            \/ \E m \in DOMAIN R.mans : \E c \in R.mans[m] : ManCb(m, c, R.now)
Init == R = InitR /\ ops = 0
Next == \/ UNCHANGED ops /\ (New(0) \/ Alg \/ StepOver \/ Callback \/ Return(R.fail, Value, R.now))
        \/ ops < MaxOps /\ ops' = ops + 1 /\ Op
Spec == Init /\ [][Next]_vars
\* a run that ended by itself has reached its target and would not have before its last step
Reached == (R.ph = "ret" /\ R.op.k = "until" /\ R.fail = 0 /\ ~R.stop) => (R.op.has /\ 100 * (R.op.t - R.now) < R.dt)
=============================================================================
