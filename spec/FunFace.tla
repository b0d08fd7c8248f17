------------------------------ MODULE FunFace -------------------------------
(* Functions of any kind in a co-simulation with fixed steps, as the functions  *)
(* themselves see it: when they are given values, calculated and asked for      *)
(* values.  A function may have a memory, so that it matters how often it is    *)
(* calculated; what it gives out is good from its calculation until it is given *)
(* another value.                                                               *)
(*                                                                              *)
(* Simulator s takes steps of D[s] base steps.  A function goes by the steps of *)
(* those that it feeds: Rate(f) is their least common multiple.                 *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLE R
Types == 0..3       \* real, integer, string, boolean
Slots == Types \X {0, 1}
Zero == [v \in Slots |-> 0]
Zero4 == [ty \in Types |-> 0]
InitR == [ph |-> "build", D |-> <<>>, funs |-> 0, sf |-> {}, fs |-> {}, c |-> 0, todo |-> {}, fail |-> 0,
          O |-> <<>>, inp |-> <<>>,                        \* what simulators give, and have been given
          fin |-> <<>>, fout |-> <<>>, good |-> {}, n |-> <<>>]   \* n: calculations since the simulators were done
Sims == 1..Len(R.D)
Funs == 1..R.funs

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE LcmOf(_)
LcmOf(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN Lcm(x, LcmOf(S \ {x}))
\* connections: [f, to: slot, s, at: slot] to a function, [f, ty, s, at: slot] from one
RateIn(r, f) == LcmOf({r.D[k.s] : k \in {k \in r.fs : k.f = f}})
Rate(f) == RateIn(R, f)
Divides(d, x) == x % d = 0
Initial(r) == r.ph \in {"iter", "iter2"}
DueTo(r, k) == Initial(r) \/ Divides(Lcm(r.D[k.s], RateIn(r, k.f)), r.c)
DueFun(r, f) == Initial(r) \/ Divides(RateIn(r, f), r.c)

Open == R.ph \in {"build", "idle"}
AddSim(d) == /\ R.ph = "build"
             /\ R' = [R EXCEPT !.D = Append(@, d), !.O = Append(@, Zero), !.inp = Append(@, Zero)]
SetRate(s, d) == R.ph = "build" /\ s \in Sims /\ R' = [R EXCEPT !.D[s] = d]
AddFun == /\ Open /\ R.ph = "build"
          /\ R' = [R EXCEPT !.funs = @ + 1, !.fin = Append(@, Zero), !.fout = Append(@, Zero4), !.n = Append(@, 0)]
ConnectTo(s, at, f, to) == /\ Open /\ s \in Sims /\ f \in Funs /\ at[1] = to[1]
                           /\ \A k \in R.sf : ~(k.f = f /\ k.to = to)
                           /\ R' = [R EXCEPT !.sf = @ \cup {[f |-> f, to |-> to, s |-> s, at |-> at]}]
ConnectFrom(f, ty, s, at) == /\ Open /\ s \in Sims /\ f \in Funs /\ at[1] = ty
                             /\ \A k \in R.fs : ~(k.s = s /\ k.at = at)
                             /\ R' = [R EXCEPT !.fs = @ \cup {[f |-> f, ty |-> ty, s |-> s, at |-> at]}]

(* ---- phases ---- *)
\* the simulators are done: values pass between them and the functions
Enter(r, ph) ==
    LET q == [r EXCEPT !.ph = ph, !.c = IF ph = "sync" THEN @ + 1 ELSE @, !.n = [f \in 1..r.funs |-> 0]]
        new(f, to) == CHOOSE k \in q.sf : k.f = f /\ k.to = to /\ DueTo(q, k)
    IN [q EXCEPT !.fin = [f \in 1..q.funs |-> [to \in Slots |->
            IF \E k \in q.sf : k.f = f /\ k.to = to /\ DueTo(q, k) THEN q.O[new(f, to).s][new(f, to).at] ELSE @[f][to]]]]
After == [setup |-> "iter", start |-> "iter2", step |-> "sync"]
\* the functions are done
Calculated(r) == \A f \in 1..r.funs : IF Initial(r) THEN r.n[f] > 0 ELSE r.n[f] = (IF DueFun(r, f) THEN 1 ELSE 0)
Deliver(r) ==
    LET from(s, at) == CHOOSE k \in r.fs : k.s = s /\ k.at = at
    IN [r EXCEPT !.inp = [s \in DOMAIN @ |-> [at \in Slots |->
            IF \E k \in r.fs : k.s = s /\ k.at = at /\ DueFun(r, k.f) THEN r.fout[from(s, at).f][at[1]] ELSE @[s][at]]]]
Stepping(r) == {s \in DOMAIN r.D : Divides(r.D[s], r.c)}
Commence(r, ph, S) == LET q == [r EXCEPT !.ph = ph, !.todo = S] IN IF S = {} THEN Enter(q, After[ph]) ELSE q
Begin == \/ R.ph = "build" /\ R' = Commence(R, "setup", Sims)
         \/ R.ph = "idle" /\ R' = Commence(R, "step", Stepping(R))
\* the simulators go on when the functions are done
Next(r, ph) ==
    CASE ph = "start" /\ r.ph = "iter" /\ Calculated(r) -> Commence(Deliver(r), "start", DOMAIN r.D)
      [] ph = "step" /\ r.ph = "iter2" /\ Calculated(r) -> Commence(Deliver(r), "step", Stepping(r))
      [] OTHER -> r
\* simulator s calculates; W is what it has then, O what it gives thereafter
Call(ph, s, W, O, d) ==
    LET r == Next(R, ph) IN
    /\ r.ph = ph /\ s \in r.todo
    /\ ph # "setup" => W = r.inp[s]
    /\ ph = "step" => d = r.D[s]
    /\ LET q == [r EXCEPT !.todo = @ \ {s}, !.O[s] = O] IN R' = IF q.todo = {} THEN Enter(q, After[ph]) ELSE q
Passing == R.ph \in {"iter", "iter2", "sync"}
\* function f is given x; g # 0: it throws
FunSet(f, to, x, g) ==
    /\ Passing /\ f \in Funs
    /\ \E k \in R.sf : k.f = f /\ k.to = to /\ x = R.O[k.s][k.at]
    /\ R' = IF g # 0 THEN [R EXCEPT !.ph = "dead", !.fail = g] ELSE [R EXCEPT !.good = @ \ {f}]
\* it is calculated, from I, giving O
FunCalc(f, I, O, g) ==
    /\ Passing /\ f \in Funs /\ I = R.fin[f]
    /\ R.ph = "sync" => DueFun(R, f) /\ R.n[f] = 0
    /\ R' = IF g # 0 THEN [R EXCEPT !.ph = "dead", !.fail = g] ELSE [R EXCEPT !.n[f] = @ + 1, !.fout[f] = O, !.good = @ \cup {f}]
FunGet(f, ty, x) == Passing /\ f \in R.good /\ x = R.fout[f][ty] /\ UNCHANGED R
Return(failed) ==
    \/ /\ R.ph = "sync" /\ ~failed /\ Calculated(R)
       /\ R' = [Deliver(R) EXCEPT !.ph = "idle"]
    \/ /\ R.ph = "dead" /\ failed
       /\ R' = [R EXCEPT !.ph = "over"]

(* ---- what is claimed ---- *)
TypeOK == /\ R.ph \in {"build", "setup", "iter", "start", "iter2", "step", "sync", "idle", "dead", "over"}
          /\ R.todo \subseteq Sims /\ R.good \subseteq Funs
OneSource == /\ \A k, j \in R.sf : k.f = j.f /\ k.to = j.to => k = j
             /\ \A k, j \in R.fs : k.s = j.s /\ k.at = j.at => k = j
\* a function is never calculated but when all whom it feeds are done
InStep == \A f \in Funs : (R.ph = "sync" /\ R.n[f] > 0) => \A k \in R.fs : k.f = f => Divides(R.D[k.s], R.c)
\* what is passed on comes from a calculation since which all its sources have kept still
Fresh == [][(R.ph = "sync" /\ R'.ph = "idle") =>
              \A k \in R.fs : (\A j \in R.fs : j.f = k.f => Divides(R.D[j.s], R.c)) => R'.inp[k.s][k.at] = R.fout[k.f][k.ty]]_R
\* simulators and functions have their turns
Apart == [][(R'.O # R.O => R'.fout = R.fout) /\ (R'.fout # R.fout => R.todo = {})]_R
Once == [][\A f \in Funs : (R'.funs = R.funs /\ R.ph = "sync" /\ R'.n[f] # R.n[f] /\ R'.ph = "sync") => R.n[f] = 0 /\ R'.n[f] = 1]_R
=============================================================================
