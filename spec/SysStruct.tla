----------------------------- MODULE SysStruct -----------------------------
(***************************************************************************)
(* cosim::system_structure together with a variable_value_map.              *)
(* cfg.models: sequence of [vars]; a variable is [name, ty, ca, vb] with      *)
(* ty 1..4, ca 1 input 2 output 3 parameter 4 calculated parameter 5 local,   *)
(* vb 1 constant 2 fixed 3 tunable 4 discrete 5 continuous.                   *)
(* cfg.ftypes: sequence of function types (FunTypes).                        *)
(* A qualified variable name is <<entity, group, groupInst, name, inst>>;     *)
(* it means a simulator variable iff group is empty.                          *)
(***************************************************************************)
EXTENDS FunTypes
VARIABLES cfg, S
svars == <<cfg, S>>
InitS == S = [ents |-> <<>>, conns |-> {}, vals |-> {}]
INP == 1  OUT == 2  CPAR == 4

EntIdx(n) == {k \in DOMAIN S.ents : S.ents[k].name = n}
Ent(n) == S.ents[CHOOSE k \in EntIdx(n) : TRUE]
IsSim(n) == EntIdx(n) # {} /\ Ent(n).kind = "sim"
IsFun(n) == EntIdx(n) # {} /\ Ent(n).kind = "fun"
SimForm(v) == v[2] = ""
VarIdx(v) == LET vs == cfg.models[Ent(v[1]).ty].vars IN {k \in DOMAIN vs : vs[k].name = v[4]}
SimVarExists(v) == IsSim(v[1]) /\ VarIdx(v) # {}
SimVar(v) == cfg.models[Ent(v[1]).ty].vars[CHOOSE k \in VarIdx(v) : TRUE]
FunDesc(n) == Describe(cfg.ftypes[Ent(n).ty], Ent(n).params)
IoIdx(v) == LET D == FunDesc(v[1]) IN
            {<<g, i>> \in UNION {{<<g, i>> : i \in DOMAIN D[g].ios} : g \in DOMAIN D} :
               /\ D[g].name = v[2] /\ D[g].ios[i].name = v[4]
               /\ v[3] >= 0 /\ v[3] < D[g].cnt /\ v[5] >= 0 /\ v[5] < D[g].ios[i].cnt}
FunVarExists(v) == IsFun(v[1]) /\ IoIdx(v) # {}
FunVar(v) == LET p == CHOOSE p \in IoIdx(v) : TRUE IN FunDesc(v[1])[p[1]].ios[p[2]]
Exists(v) == IF SimForm(v) THEN SimVarExists(v) ELSE FunVarExists(v)
Descr(v) == IF SimForm(v) THEN SimVar(v) ELSE FunVar(v)

CanAddSim(n, hint) == n # "" /\ EntIdx(n) = {} /\ hint >= 0
CanAddFun(n, f, P) == n # "" /\ EntIdx(n) = {} /\ SubstOk(cfg.ftypes[f], P)
AddSim(n, m, hint, ok) ==
    /\ ok = CanAddSim(n, hint)
    /\ S' = IF ok THEN [S EXCEPT !.ents = Append(@, [name |-> n, kind |-> "sim", ty |-> m, hint |-> hint, params |-> <<>>])] ELSE S
    /\ UNCHANGED cfg
AddFun(n, f, P, ok) ==
    /\ ok = CanAddFun(n, f, P)
    /\ S' = IF ok THEN [S EXCEPT !.ents = Append(@, [name |-> n, kind |-> "fun", ty |-> f, hint |-> 0, params |-> P])] ELSE S
    /\ UNCHANGED cfg

Connected(t) == \E c \in S.conns : c[2] = t
Askable(s, t) == (SimForm(s) \/ SimForm(t)) /\ Exists(s) /\ Exists(t)     \* not from function to function
Compatible(s, t) ==
    /\ Descr(s).ty = Descr(t).ty
    /\ Descr(s).ca \in {OUT, CPAR} /\ Descr(t).ca = INP
    /\ SimForm(t) => SimVar(t).vb \notin {1, 2}
CanConnect(s, t) == Askable(s, t) /\ Compatible(s, t) /\ ~Connected(t)
\* the same asked of descriptions: 1 valid, 0 not, 2 there is nothing to ask about
ConnectionVerdict(s, t) == IF ~Askable(s, t) THEN 2 ELSE IF Compatible(s, t) THEN 1 ELSE 0
ValueVerdict(v, ty) == IF ~(SimForm(v) /\ SimVarExists(v)) THEN 2 ELSE IF SimVar(v).ty = ty THEN 1 ELSE 0
Connect(s, t, ok) ==
    /\ ok = CanConnect(s, t)
    /\ S' = IF ok THEN [S EXCEPT !.conns = @ \cup {<<s, t>>}] ELSE S
    /\ UNCHANGED cfg
CanValue(v, ty) == SimForm(v) /\ SimVarExists(v) /\ SimVar(v).vb # 1 /\ SimVar(v).ty = ty
AddValue(v, ty, x, ok) ==
    /\ ok = CanValue(v, ty)
    /\ S' = IF ok THEN [S EXCEPT !.vals = {w \in @ : w[1] # v} \cup {<<v, ty, x>>}] ELSE S
    /\ UNCHANGED cfg
=============================================================================
