------------------------------- MODULE Pacing -------------------------------
(***************************************************************************)
(* Real-time pacing: real_time_timer as used by simulate_until.  Wall time  *)
(* is part of the state.  After every step the timer may only let the next  *)
(* one begin once the wall clock has caught up with simulated time divided  *)
(* by the factor, both counted from the reference point; the reference      *)
(* point is the start of the run, or the end of the first step after the    *)
(* settings were changed.                                                   *)
(***************************************************************************)
EXTENDS Integers
VARIABLE P
CONSTANTS Unit,      \* wall-clock ticks per unit of simulated time at factor 1
          Tol,       \* the timer does not sleep for less than this
          Slow       \* what passes for "no delay"

\* set = [on, fn, fd]: enabled, factor fn/fd (fn <= 0: disabled)
InitP(set) == [ set |-> set, seen |-> set, ph |-> "idle", t |-> 0, w |-> 0, t0 |-> 0, w0 |-> 0, due |-> FALSE ]
Active(s) == s.on /\ s.fn > 0

RunBegin(w) == P.ph = "idle" /\ P' = [P EXCEPT !.ph = "step", !.t0 = P.t, !.w0 = w, !.w = w, !.due = FALSE]
Configure(set, w) == P' = [P EXCEPT !.set = set, !.w = w]
\* a step of dt ends at wall time w
StepEnd(dt, w) ==
    /\ P.ph = "step"
    /\ P' = IF P.set # P.seen
            THEN [P EXCEPT !.ph = "wait", !.t = @ + dt, !.w = w, !.seen = P.set, !.t0 = P.t + dt, !.w0 = w]
            ELSE [P EXCEPT !.ph = "wait", !.t = @ + dt, !.w = w]
\* what the lower bound demands
Paced(w) == Active(P.seen) => (w - P.w0) * P.seen.fn >= (P.t - P.t0) * P.seen.fd * Unit - Tol * P.seen.fn
NotDelayed(w) == ~Active(P.seen) => w - P.w <= Slow
\* nor is it delayed for longer than needed
NotLate(w) == (Active(P.seen) /\ w - P.w > Slow) =>
                  (w - P.w0 - Slow) * P.seen.fn <= (P.t - P.t0) * P.seen.fd * Unit
\* the next step commences (or the run returns) at wall time w
Resume(w, again) ==
    /\ P.ph = "wait" /\ w >= P.w
    /\ Paced(w) /\ NotDelayed(w) /\ NotLate(w)
    /\ P' = [P EXCEPT !.ph = IF again THEN "step" ELSE "idle", !.w = w]
=============================================================================
