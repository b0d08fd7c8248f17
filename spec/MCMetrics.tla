------------------------------ MODULE MCMetrics ------------------------------
EXTENDS Metrics
CONSTANT MaxK
VARIABLE k, clk,        \* exact wall time
         steps          \* simulated time and steps at which windows ended, in this stretch
mvars == <<P, M, k, clk, steps>>
Sets == {[on |-> o, fn |-> f[1], fd |-> f[2], mn |-> m[1], ms |-> m[2]] :
            o \in BOOLEAN, f \in {<<1, 2>>, <<2, 1>>}, m \in {<<1, -1>>, <<2, -1>>, <<2, 1>>}}
MInit == k = 0 /\ clk = 0 /\ steps = 0 /\ \E s \in Sets : P = InitP(s) /\ M = InitM
Next ==
    /\ k < MaxK /\ k' = k + 1
    /\ \E d \in 0..3 : LET w == P.w + d IN
         \/ RunBegin(w) /\ MRunBegin(w) /\ clk' = w /\ steps' = 0
         \/ M.first /\ d = 0 /\ MFirst(w) /\ clk' = w /\ UNCHANGED <<P, steps>>
         \/ ~M.first /\ StepEnd(1, w) /\ MStepEnd /\ clk' = w /\ steps' = (IF P.set # P.seen THEN 0 ELSE steps + 1)
         \/ \E again \in BOOLEAN, full \in BOOLEAN : Resume(w, again) /\ Compute(IF M.fresh THEN At(P.w, P.w) ELSE At(w, w), full) /\ clk' = w /\ UNCHANGED steps
         \/ \E s \in Sets : s # P.set /\ Configure(s, w) /\ clk' = w /\ UNCHANGED <<M, steps>>
Spec == MInit /\ [][Next]_mvars

Computed == P.ph = "step" /\ ~M.first /\ M.tot.sim >= 0
\* with pacing in force the total average never exceeds the target
TotalNotAboveTarget == (Computed /\ Active(P.seen)) =>
    M.tot.lo * P.seen.fn >= M.tot.sim * P.seen.fd * Unit - (Tol + 1) * P.seen.fn
\* the windows tile the time since the reference point
Tiling == ~M.fresh => (M.wt >= P.t0 /\ M.wt <= P.t /\ M.ws.lo >= M.w0.lo /\ (P.ph # "wait" => P.t - M.wt = M.cnt))
\* with step windows, each consists of exactly that many steps
WindowSize == (Computed /\ P.seen.ms <= 0) => M.cnt < P.seen.mn
FullWindow == [][(M'.roll # M.roll /\ P.seen.ms <= 0) => (M'.roll.sim = P.seen.mn /\ M'.roll.n = P.seen.mn)]_mvars
Stretch == Computed => (M.tot.sim = steps \/ steps = 0)
Exact == M.tot.lo <= M.tot.hi /\ M.roll.lo <= M.roll.hi
=============================================================================
