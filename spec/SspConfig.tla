----------------------------- MODULE SspConfig -----------------------------
(* What an SSP system structure description means: a system with a start    *)
(* time, an algorithm and sets of parameter values, or nothing.             *)
(*                                                                          *)
(* D = [valid, start, algo, models, sims, links], where a component (sims)  *)
(* also has declared connectors and a sequence of parameter sets, and a     *)
(* link goes from a connector to a connector, possibly with a linear        *)
(* transformation: lin is <<>> or <<[f, o]>> (other: one that is not        *)
(* linear).                                                                 *)
EXTENDS OspConfig

Declares(D, s, c) == \E x \in SimsNamed(D, s) : c \in Range(x.conns)
LinkEdge(D, k) ==
    IF ~Declares(D, k.as, k.an) \/ ~Declares(D, k.bs, k.bn) \/ k.other THEN Broken
    ELSE IF ~HasVar(D, k.as, k.an) \/ ~HasVar(D, k.bs, k.bn) THEN Broken
    ELSE LET a == Var(D, k.as, k.an)  b == Var(D, k.bs, k.bn) IN
         Edge(SimEnd(k.as, k.an), SimEnd(k.bs, k.bn),
              Gives(a) /\ Takes(b) /\ a.ty = b.ty /\ (k.lin # <<>> => k.numbers /\ a.ty = "real"))
LinkEdges(D) == [i \in 1..Len(D.links) |-> LinkEdge(D, D.links[i])]

CompOk(D, s) ==
    /\ ModelOf(D, s) # {} /\ s.hint.ok /\ Num(s.hint, 0) >= 0
    /\ \A p \in Range(s.psets) : p.ok /\ \A x \in Range(p.ps) : x.ok
CompNamesOk(D) ==
    LET ns == [i \in 1..Len(D.sims) |-> D.sims[i].name] IN "" \notin Range(ns) /\ Cardinality(Range(ns)) = Len(ns)
SspWellformed(D) ==
    /\ D.valid /\ D.start.ok /\ D.algo.ok /\ (D.algo.given => D.algo.v > 0)
    /\ CompNamesOk(D)
    /\ \A s \in Range(D.sims) : CompOk(D, s)
    /\ EdgesOk(LinkEdges(D))

\* Parameters that cannot be applied are left out, and of several values for
\* a variable the last one holds.
Applies(D, s, x) == HasVar(D, s.name, x.var) /\
    LET v == Var(D, s.name, x.var) IN v.ca \in {"param", "in"} /\ v.ty = x.ty /\ v.vb # "constant"
\* the parameters of set n for component s; "" is the default set
Listing(s, n) == IF n = "" THEN IF s.psets = <<>> THEN <<>> ELSE s.psets[1].ps
                 ELSE Concat([i \in 1..Len(s.psets) |-> IF s.psets[i].name = n THEN s.psets[i].ps ELSE <<>>])
ValuesOf(D, s, n) ==
    LET l == Listing(s, n)  ok == {i \in DOMAIN l : Applies(D, s, l[i])} IN
    {<<s.name, l[i].var, l[i].ty, l[i].v>> : i \in {i \in ok : \A j \in ok : l[j].var = l[i].var => j <= i}}
SetNames(D) == {""} \cup {p.name : p \in UNION {Range(s.psets) : s \in Range(D.sims)}}
SetValues(D, n) == UNION {ValuesOf(D, s, n) : s \in Range(D.sims)}
CompEntity(s) == [name |-> s.name, src |-> s.src, hint |-> Num(s.hint, 0)]
SspSystem(D) ==
    [start |-> Num(D.start, 0), algo |-> IF D.algo.given THEN <<D.algo.v>> ELSE <<>>,
     ents  |-> {CompEntity(s) : s \in Range(D.sims)},
     conns |-> {<<SimEnd(k.as, k.an), SimEnd(k.bs, k.bn)>> : k \in {x \in Range(D.links) : x.lin = <<>>}},
     lins  |-> {<<SimEnd(k.as, k.an), SimEnd(k.bs, k.bn), k.lin[1].f, k.lin[1].o>> : k \in {x \in Range(D.links) : x.lin # <<>>}},
     sets  |-> {<<n, SetValues(D, n)>> : n \in SetNames(D)}]
=============================================================================
