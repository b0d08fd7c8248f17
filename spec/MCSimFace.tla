----------------------------- MODULE MCSimFace ------------------------------
(* SimFace together with a cache as slave_simulator keeps it: pending values,   *)
(* on which modifiers are run at the exchange; W is what the slave gets by it.  *)
EXTENDS SimFace
CONSTANTS MaxOps, Vs
VARIABLES C, ops
vars == <<S, C, ops>>
InitC == [last |-> [v \in Vars |-> Start(v)], arr |-> <<>>, W |-> [v \in Vars |-> Start(v)]]
Put(a, v, x) == IF \E k \in DOMAIN a : a[k][1] = v THEN [k \in DOMAIN a |-> IF a[k][1] = v THEN <<v, x>> ELSE a[k]] ELSE Append(a, <<v, x>>)
Touch(a, v, x) == IF \E k \in DOMAIN a : a[k][1] = v THEN a ELSE Append(a, <<v, x>>)
CSet(v, x) == C' = [C EXCEPT !.last[v] = x, !.arr = Put(@, v, x)]
CMod(v) == C' = [C EXCEPT !.arr = Touch(@, v, C.last[v])]
RECURSIVE WithMods(_, _)
WithMods(a, M) == IF M = {} THEN a ELSE LET v == CHOOSE v \in M : TRUE IN WithMods(Touch(a, v, C.last[v]), M \ {v})
RECURSIVE Write(_, _, _)
Write(w, a, dt) == IF a = <<>> THEN w ELSE LET e == Head(a) IN Write([w EXCEPT ![e[1]] = Apply(e[1], S.im[e[1]], e[2], dt)], Tail(a), dt)
CExchange(dt) == C' = [C EXCEPT !.W = Write(@, WithMods(C.arr, {v \in Vars : S.im[v].k # "none"}), dt), !.arr = <<>>]
Mods == {None, [k |-> "add", c |-> 1], [k |-> "dt", c |-> 0]}
U == UNCHANGED C
Op == \/ U /\ \E v \in Vs : ExposeGet(v) \/ ExposeSet(v, v \in Vars) \/ Get(v, S.seen[v], v \in S.eg)
      \/ \E v \in Vs, x \in {1, 5} : v \in Vars /\ Set(v, x, v \in S.es) /\ IF v \in S.es THEN CSet(v, x) ELSE U
      \/ \E v \in Vs, m \in Mods : v \in Vars /\ InMod(v, m, v \in S.es) /\ IF v \in S.es THEN CMod(v) ELSE U
      \/ U /\ \E v \in Vs, m \in Mods : OutMod(v, m)
      \/ U /\ Setup
      \/ Iterate /\ CExchange(0)
      \/ StartSim /\ CExchange(0)
      \/ \E dt \in {1, 2} : Step(dt) /\ CExchange(dt)
Init == S = InitS /\ C = InitC /\ ops = 0
MNext == \/ ops < MaxOps /\ ops' = ops + 1 /\ Op
         \/ U /\ UNCHANGED ops /\ (\/ \E o \in {"setup", "start", "step"}, f \in {0, 7} : Slave(o, S.V, f)
                                   \/ Return(S.fail))
Spec == Init /\ [][MNext]_vars
\* the cache delivers what is specified
Cached == S.op \in {"start", "step"} => C.W = S.V
Some == {<<0, 2>>, <<0, 0>>, <<3, 2>>}
=============================================================================
