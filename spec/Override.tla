------------------------------- MODULE Override ----------------------------
(***************************************************************************)
(* override_manipulator: requests made by any thread at any time, applied    *)
(* together when a step commences.                                          *)
(*   pend   requests that have taken effect, waiting for the next step       *)
(*   calls  requests being made: thread -> [r: request, done: has it taken effect]       *)
(*   mod    installed modifiers: target -> <<kind, value>>                   *)
(*   ph     "idle" | "in" (step commencing, queue not yet taken) | "out"     *)
(* A request is [i, v, m]: simulator, variable, <<1, x>> or <<0, 0>> (reset). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, O
ovars == <<cfg, O>>
InitO == O = [pend |-> <<>>, calls |-> <<>>, mod |-> <<>>, ph |-> "idle"]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, K) == [x \in DOMAIN f \ K |-> f[x]]

\* causalities: 1 input, 2 output, 3 parameter, 4 calculated parameter, 5 local
Modifiable(i, v) ==
    /\ i \in DOMAIN cfg.sims
    /\ v \in DOMAIN cfg.sims[i]
    /\ cfg.sims[i][v].ca \in {1, 2, 3, 4}
Install(mod, r) == IF r.m[1] = 0 THEN Del(mod, {<<r.i, r.v>>}) ELSE Put(mod, <<r.i, r.v>>, r.m)
RECURSIVE Fold(_, _)
Fold(mod, q) == IF q = <<>> THEN mod ELSE Fold(Install(mod, Head(q)), Tail(q))

ReqBegin(th, r) ==
    /\ th \notin DOMAIN O.calls
    /\ O' = [O EXCEPT !.calls = Put(@, th, [r |-> r, done |-> FALSE])]
    /\ UNCHANGED cfg
Enqueue(th) ==
    /\ th \in DOMAIN O.calls /\ ~O.calls[th].done
    /\ Modifiable(O.calls[th].r.i, O.calls[th].r.v)
    /\ O' = [O EXCEPT !.pend = Append(@, O.calls[th].r), !.calls[th].done = TRUE]
    /\ UNCHANGED cfg
ReqEnd(th, ok) ==
    /\ th \in DOMAIN O.calls
    /\ IF ok THEN O.calls[th].done ELSE ~Modifiable(O.calls[th].r.i, O.calls[th].r.v)
    /\ O' = [O EXCEPT !.calls = Del(@, {th})]
    /\ UNCHANGED cfg
StepBegin ==
    /\ O.ph = "idle"
    /\ O' = [O EXCEPT !.ph = "in"]
    /\ UNCHANGED cfg
Apply ==
    /\ O.ph = "in"
    /\ O' = [O EXCEPT !.ph = "out", !.mod = Fold(@, O.pend), !.pend = <<>>]
    /\ UNCHANGED cfg
StepEnd ==
    /\ O.ph = "out"
    /\ O' = [O EXCEPT !.ph = "idle"]
    /\ UNCHANGED cfg
=============================================================================
