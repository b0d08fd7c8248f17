------------------------------- MODULE Metrics -------------------------------
(***************************************************************************)
(* Real-time metrics, as they accompany Pacing: the total average real time *)
(* factor is simulated time over wall-clock time since the reference point  *)
(* of the pacing; the rolling average is the same for the latest complete   *)
(* window: a number of steps, or the steps it takes to exceed a period of   *)
(* wall-clock time.  The windows follow each other without gap or overlap.  *)
(*                                                                         *)
(* The instant at which the timer takes the time is known only to lie       *)
(* between two observable ones, so instants are intervals here, and a       *)
(* metric is the simulated time it is about together with the interval of   *)
(* the wall-clock time (lo = hi is exact).                                  *)
(***************************************************************************)
EXTENDS Pacing
VARIABLE M
Max2(a, b) == IF a > b THEN a ELSE b
At(lo, hi) == [lo |-> lo, hi |-> hi]
NoMetric == [sim |-> -1, lo |-> 0, hi |-> 0, n |-> 0]     \* no value yet: the metric is 1
\* the settings have two more fields: mn, steps per window; ms, period (<= 0: none)
InitM ==
    [ w0 |-> At(0, 0),              \* the reference point
      ws |-> At(0, 0), wt |-> 0,    \* where the current window began
      cnt |-> 0,                    \* steps in the window
      fresh |-> FALSE,              \* the reference point is at the end of this step
      first |-> FALSE,              \* no step has commenced in this run
      tot |-> NoMetric, roll |-> NoMetric ]

\* a run begins after wall time w, and before its first step commences
MRunBegin(w) == M' = [M EXCEPT !.w0 = At(w, w), !.ws = At(w, w), !.wt = P.t, !.cnt = 0, !.first = TRUE]
MFirst(w) == M.first /\ M' = [M EXCEPT !.w0.hi = w, !.ws.hi = w, !.first = FALSE]
\* (together with StepEnd)
MStepEnd == M' = [M EXCEPT !.fresh = P.set # P.seen]

\* Elapsed wall-clock time from an instant in a to one in c
Elapsed(a, c) == At(Max2(0, c.lo - a.hi), c.hi - a.lo)
\* The wall-clock time that the total is about is at least what the pacing demands
DueAtLeast == IF Active(P.seen) THEN ((P.t - P.t0) * P.seen.fd * Unit) \div P.seen.fn - Tol ELSE 0
Metric(sim, e, n) == [sim |-> sim, lo |-> e.lo, hi |-> e.hi, n |-> n]

(* After the step: the metrics are computed at some instant in c (no earlier
   than the end of the step, no later than what follows it), after any delay. *)
Compute(c0, full) ==
    LET w0 == IF M.fresh THEN c0 ELSE M.w0
        ws == IF M.fresh THEN c0 ELSE M.ws
        wt == IF M.fresh THEN P.t ELSE M.wt
        per == P.seen.ms
        cnt == IF M.fresh THEN 0 ELSE M.cnt + 1
        c == At(Max2(c0.lo, w0.lo + DueAtLeast), c0.hi)
        et == Elapsed(w0, c)
        er == Elapsed(ws, c)
    IN  \* is the window complete?
        /\ IF per > 0 THEN (full => er.hi > per * Unit) /\ (~full => er.lo <= per * Unit)
                      ELSE full <=> (cnt >= P.seen.mn)
        /\ M' = [M EXCEPT !.fresh = FALSE,
                    !.w0 = w0,
                    !.ws = IF full THEN c ELSE ws, !.wt = IF full THEN P.t ELSE wt,
                    !.cnt = IF full THEN 0 ELSE cnt,
                    !.tot = Metric(P.t - P.t0, At(Max2(et.lo, DueAtLeast), et.hi), 0),
                    !.roll = IF full THEN Metric(P.t - wt, er, cnt) ELSE @]
=============================================================================
