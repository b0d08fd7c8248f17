---------------------------- MODULE MCSysStruct ----------------------------
EXTENDS SysStruct, TLC
CONSTANTS MaxOps
VARIABLE ops
V(n, t, c, b) == [name |-> n, ty |-> t, ca |-> c, vb |-> b]
Init == /\ cfg = [models |-> <<[vars |-> <<V("o", 1, OUT, 5), V("i", 1, INP, 5), V("f", 1, INP, 2), V("n", 2, CPAR, 3)>>]>>,
                  ftypes |-> <<LinearType, SumType>>]
        /\ InitS /\ ops = 0
Names == {"a", "b", ""}
VarNames == {<<"a", "", 0, w, 0>> : w \in {"o", "i", "f", "n", "x"}} \cup {<<"b", "", 0, "i", 0>>}
            \cup {<<"b", "in", k, "", 0>> : k \in {-1, 0, 1}} \cup {<<"b", "out", 0, "", 0>>, <<"a", "out", 0, "", 0>>}
PSets == {<<>>, <<<<0, PINT, 2>>, <<1, PTYPE, 2>>>>, <<<<1, PINT, 2>>>>}
MAddSim == \E n \in Names, h \in {-1, 0} : AddSim(n, 1, h, CanAddSim(n, h))
MAddFun == \E n \in Names, f \in 1..2, P \in PSets : AddFun(n, f, P, CanAddFun(n, f, P))
MConnect == \E s, t \in VarNames : Connect(s, t, CanConnect(s, t))
MValue == \E v \in VarNames, ty \in 1..2 : AddValue(v, ty, ops, CanValue(v, ty))
Next == ops < MaxOps /\ ops' = ops + 1 /\ (MAddSim \/ MAddFun \/ MConnect \/ MValue)
Spec == Init /\ [][Next]_<<svars, ops>>
(* the structure is always well formed *)
WellFormed ==
    /\ \A j, k \in DOMAIN S.ents : j # k => S.ents[j].name # S.ents[k].name
    /\ \A k \in DOMAIN S.ents : S.ents[k].name # "" /\ S.ents[k].hint >= 0
    /\ \A c \in S.conns : Exists(c[1]) /\ Exists(c[2]) /\ Descr(c[1]).ty = Descr(c[2]).ty
    /\ \A c, d \in S.conns : c[2] = d[2] => c = d
    /\ \A w \in S.vals : SimVarExists(w[1]) /\ SimVar(w[1]).ty = w[2]
(* nothing that was accepted is ever lost by a later operation *)
Monotone == [][ /\ Len(S'.ents) >= Len(S.ents) /\ SubSeq(S'.ents, 1, Len(S.ents)) = S.ents
                /\ S.conns \subseteq S'.conns
                /\ {w[1] : w \in S.vals} \subseteq {w[1] : w \in S'.vals} ]_<<svars, ops>>
=============================================================================
