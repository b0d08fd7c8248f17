---------------------------- MODULE SimFaceProof ----------------------------
(* For any variables, values and modifiers: a cache of pending values, as      *)
(* slave_simulator keeps it, which passes on only what was set or is or was    *)
(* modified since the last exchange, gives the slave what SimFace says.        *)
EXTENDS SimFace, TLAPS
CONSTANT Mods
VARIABLE C
ASSUME NoneIsMod == None \in Mods
\* C.P: pending; C.val: with these values; C.last; C.W: what the slave has
InitC == [P |-> {}, val |-> [v \in Vars |-> 0], last |-> [v \in Vars |-> Start(v)], W |-> [v \in Vars |-> Start(v)]]
CSet(v, x) == C' = [C EXCEPT !.last = [@ EXCEPT ![v] = x], !.P = @ \cup {v}, !.val = [@ EXCEPT ![v] = x]]
CMod(v) == C' = [C EXCEPT !.P = @ \cup {v}, !.val = [@ EXCEPT ![v] = IF v \in C.P THEN @ ELSE C.last[v]]]
Given0(v) == IF v \in C.P THEN C.val[v] ELSE C.last[v]
CExchange(dt) == C' = [C EXCEPT !.P = {}, !.W = [v \in Vars |-> IF v \in C.P THEN Apply(v, S.im[v], C.val[v], dt)
                                                               ELSE IF S.im[v] # None THEN Apply(v, S.im[v], C.last[v], dt) ELSE C.W[v]]]
U == UNCHANGED C
MNext == \/ \E v \in All : U /\ ExposeGet(v)
        \/ \E v \in Vars : U /\ ExposeSet(v, TRUE)
        \/ \E v \in Vars : \E x : Set(v, x, TRUE) /\ CSet(v, x)
        \/ \E v \in Vars, m \in Mods : InMod(v, m, TRUE) /\ CMod(v)
        \/ \E v \in All, m \in Mods : U /\ OutMod(v, m)
        \/ U /\ Setup
        \/ Iterate /\ CExchange(0)
        \/ StartSim /\ CExchange(0)
        \/ \E dt : Step(dt) /\ CExchange(dt)
        \/ \E op, W, f : U /\ Slave(op, W, f)
        \/ \E f : U /\ Return(f)
Spec == S = InitS /\ C = InitC /\ [][MNext]_<<S, C>>
IsRec == /\ S = [ph |-> S.ph, op |-> S.op, dt |-> S.dt, fail |-> S.fail, eg |-> S.eg, es |-> S.es, fresh |-> S.fresh, last |-> S.last,
                 V |-> S.V, im |-> S.im, om |-> S.om, seen |-> S.seen, k |-> S.k]
         /\ C = [P |-> C.P, val |-> C.val, last |-> C.last, W |-> C.W]
         /\ S.last = [v \in Vars |-> S.last[v]] /\ S.V = [v \in Vars |-> S.V[v]] /\ S.im = [v \in Vars |-> S.im[v]]
         /\ C.val = [v \in Vars |-> C.val[v]] /\ C.last = [v \in Vars |-> C.last[v]] /\ C.W = [v \in Vars |-> C.W[v]]
Inv == /\ IsRec
       /\ C.last = S.last /\ C.W = S.V
       /\ C.P \subseteq S.es /\ S.es \subseteq Vars
       /\ \A v \in Vars : v \in C.P => C.val[v] = S.last[v]
       /\ \A v \in Vars : (v \in S.es /\ v \notin C.P /\ S.im[v] = None) => S.V[v] = S.last[v]
       /\ \A v \in Vars : v \notin S.es => S.im[v] = None /\ S.V[v] = Start(v) /\ S.last[v] = Start(v)
       /\ S.op \in {"start", "step"} => \A v \in Vars : S.V[v] = IF v \in S.es THEN Apply(v, S.im[v], S.last[v], S.dt) ELSE Start(v)
Cached == C.W = S.V
LEMMA NoMod == \A v, x, dt : Apply(v, None, x, dt) = x
  BY DEF Apply, None
LEMMA Exchange == ASSUME Inv, NEW dt, CExchange(dt), S' = Deliver(S, dt)
                  PROVE C'.W = S'.V /\ \A v \in Vars : S'.V[v] = IF v \in S.es THEN Apply(v, S.im[v], S.last[v], dt) ELSE Start(v)
  BY NoMod DEF Inv, IsRec, CExchange, Deliver
THEOREM Safe == Spec => [](Given /\ Cached)
<1>1. S = InitS /\ C = InitC => Inv
  <2> SUFFICES ASSUME S = InitS, C = InitC PROVE Inv
    OBVIOUS
  <2>1. C.P = {} /\ C.last = [v \in Vars |-> Start(v)] /\ C.W = [v \in Vars |-> Start(v)] /\ C.val = [v \in Vars |-> 0]
        /\ C = [P |-> C.P, val |-> C.val, last |-> C.last, W |-> C.W]
    BY DEF InitC
  <2>2. S.es = {} /\ S.op = "none" /\ S.last = [v \in Vars |-> Start(v)] /\ S.V = [v \in Vars |-> Start(v)] /\ S.im = [v \in Vars |-> None]
    BY DEF InitS
  <2>3. S = [ph |-> S.ph, op |-> S.op, dt |-> S.dt, fail |-> S.fail, eg |-> S.eg, es |-> S.es, fresh |-> S.fresh, last |-> S.last,
                 V |-> S.V, im |-> S.im, om |-> S.om, seen |-> S.seen, k |-> S.k]
    BY DEF InitS
  <2> QED BY <2>1, <2>2, <2>3 DEF Inv, IsRec
<1>2. Inv /\ [MNext]_<<S, C>> => Inv'
  <2> SUFFICES ASSUME Inv, [MNext]_<<S, C>> PROVE Inv'
    OBVIOUS
  <2> USE DEF Idle
  <2>1. CASE \E v \in All : U /\ ExposeGet(v)
    BY <2>1 DEF U, ExposeGet, Inv, IsRec
  <2>2. CASE \E v \in Vars : U /\ ExposeSet(v, TRUE)
    BY <2>2 DEF U, ExposeSet, Inv, IsRec
  <2>3. CASE \E v \in Vars : \E x : Set(v, x, TRUE) /\ CSet(v, x)
    BY <2>3 DEF Set, CSet, Inv, IsRec
  <2>4. CASE \E v \in Vars, m \in Mods : InMod(v, m, TRUE) /\ CMod(v)
    BY <2>4 DEF InMod, CMod, Inv, IsRec
  <2>5. CASE \E v \in All, m \in Mods : U /\ OutMod(v, m)
    BY <2>5 DEF U, OutMod, Inv, IsRec
  <2>6. CASE U /\ Setup
    BY <2>6 DEF U, Setup, Inv, IsRec
  <2>7. CASE Iterate /\ CExchange(0)
    BY <2>7, NoMod DEF Iterate, CExchange, Deliver, Collect, Inv, IsRec
  <2>8. CASE StartSim /\ CExchange(0)
    BY <2>8, NoMod DEF StartSim, CExchange, Deliver, Inv, IsRec
  <2>9. CASE \E dt : Step(dt) /\ CExchange(dt)
    BY <2>9, NoMod DEF Step, CExchange, Deliver, Inv, IsRec
  <2>10. CASE \E op, W, f : U /\ Slave(op, W, f)
    BY <2>10 DEF U, Slave, Collect, Inv, IsRec
  <2>11. CASE \E f : U /\ Return(f)
    BY <2>11 DEF U, Return, Inv, IsRec
  <2>12. CASE UNCHANGED <<S, C>>
    BY <2>12 DEF Inv, IsRec
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <2>10, <2>11, <2>12 DEF MNext
<1>3. Inv => Given /\ Cached
  BY DEF Inv, Given, Cached
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
