------------------------------ MODULE SimFace -------------------------------
(* A simulator as an algorithm, observers and manipulators see it: variables    *)
(* are exposed, set, read and modified; values are exchanged with the slave     *)
(* only in setup, do_iteration, start_simulation and do_step.                   *)
(*                                                                              *)
(* A variable is <<type, reference>>; types 0 real, 1 integer, 2 string,        *)
(* 3 boolean (of which values are taken modulo 2).                              *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Refs,     \* references of a type that can be set
          Outs      \* references of outputs
VARIABLE S
Types == 0..3
Vars == Types \X Refs
All == Types \X (Refs \cup Outs)
Norm(v, x) == IF v[1] = 3 THEN x % 2 ELSE x
Start(v) == IF v[2] = 3 THEN 0 ELSE Norm(v, 10 * v[1] + v[2])
None == [k |-> "none", c |-> 0]
\* what modifier m makes of x in an exchange for a step of length dt
Apply(v, m, x, dt) == CASE m.k = "none" -> x [] m.k = "add" -> Norm(v, x + m.c) [] m.k = "const" -> Norm(v, m.c)
                        [] m.k = "dt" -> Norm(v, x + dt + m.c)
InitS == [ph |-> "created", op |-> "none", dt |-> 0, fail |-> 0,
          eg |-> {}, es |-> {}, fresh |-> {},          \* exposed; of which the value is known
          last |-> [v \in Vars |-> Start(v)],          \* set last
          V |-> [v \in Vars |-> Start(v)],             \* what the slave has
          im |-> [v \in Vars |-> None], om |-> [v \in All |-> None],
          seen |-> [v \in All |-> 0], k |-> 0]         \* k: calls that made the slave calculate
\* the slave of the binding: outputs depend on the number of its calls and, directly, on an input
Feed(v) == <<v[1], 2>>
Output(s, v) == IF v[2] \in Refs THEN s.V[v] ELSE Norm(v, 10 * s.k + 3 * v[2] + v[1] + s.V[Feed(v)])
Deliver(s, dt) == [s EXCEPT !.V = [v \in Vars |-> IF v \in s.es THEN Apply(v, s.im[v], s.last[v], dt) ELSE @[v]]]
Collect(s, dt) == [s EXCEPT !.seen = [v \in All |-> IF v \in s.eg THEN Apply(v, s.om[v], Output(s, v), dt) ELSE @[v]], !.fresh = s.eg]

Idle == S.op = "none"
ExposeGet(v) == Idle /\ S' = [S EXCEPT !.eg = @ \cup {v}]
ExposeSet(v, ok) == Idle /\ ok = (v \in Vars) /\ S' = IF ok THEN [S EXCEPT !.es = @ \cup {v}] ELSE S
Set(v, x, ok) == Idle /\ ok = (v \in S.es) /\ S' = IF ok THEN [S EXCEPT !.last[v] = x] ELSE S
Get(v, x, ok) == Idle /\ ok = (v \in S.eg) /\ (ok /\ v \in S.fresh => x = S.seen[v]) /\ UNCHANGED S
InMod(v, m, ok) == Idle /\ ok = (v \in S.es) /\ S' = IF ok THEN [S EXCEPT !.im[v] = m] ELSE S
OutMod(v, m) == Idle /\ v \in S.eg /\ S' = [S EXCEPT !.om[v] = m]
Modified == {v \in Vars : S.im[v] # None} \cup {v \in All : S.om[v] # None}
Listed(L) == Idle /\ L = Modified /\ UNCHANGED S

\* operations that exchange values; the slave is called in the midst of them
Setup == Idle /\ S.ph = "created" /\ S' = [S EXCEPT !.op = "setup", !.dt = 0]
Iterate == Idle /\ S.ph = "init" /\ S' = Collect(Deliver(S, 0), 0)
StartSim == Idle /\ S.ph = "init" /\ S' = [Deliver(S, 0) EXCEPT !.op = "start", !.dt = 0]
Step(dt) == Idle /\ S.ph = "sim" /\ S' = [Deliver(S, dt) EXCEPT !.op = "step", !.dt = dt]
Next(op) == CASE op = "setup" -> "init" [] OTHER -> "sim"
\* the slave's function; W is what it has then; f # 0: it throws
Slave(op, W, f) ==
    /\ S.op = op /\ S.fail = 0 /\ W = S.V
    /\ S' = IF f # 0 THEN [S EXCEPT !.op = "done", !.ph = "error", !.fail = f]
            ELSE Collect([S EXCEPT !.op = "done", !.ph = Next(op), !.k = @ + 1], S.dt)
Return(f) == S.op = "done" /\ f = S.fail /\ S' = [S EXCEPT !.op = "none", !.fail = 0]

(* ---- what is claimed ---- *)
TypeOK == S.es \subseteq Vars /\ S.eg \subseteq All /\ S.fresh \subseteq S.eg
\* the slave has what was set last, unless it is modified, whenever it calculates; what is not exposed is not touched
Given == (S.op \in {"start", "step"}) =>
         \A v \in Vars : S.V[v] = IF v \in S.es THEN Apply(v, S.im[v], S.last[v], S.dt) ELSE Start(v)
\* without a modifier what is read is what the slave has
True == (S.op = "done" /\ S.fail = 0) => \A v \in S.eg : S.om[v] = None => S.seen[v] = Output(S, v)
\* nothing is read or delivered outside of an exchange
Quiet == [][(S'.V # S.V \/ S'.seen # S.seen) => (S'.op # S.op \/ S.ph = "init")]_S
Lawful == [][(S.ph # S'.ph) => <<S.ph, S'.ph>> \in {<<"created", "init">>, <<"init", "sim">>} \/ S'.ph = "error"]_S
=============================================================================
