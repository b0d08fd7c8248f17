---------------------------- MODULE MCSspConfig ----------------------------
(* A loader that takes one component, parameter and link at a time against  *)
(* the meaning of the description as a whole.                               *)
EXTENDS SspConfig, TLC
CONSTANTS Family, Variant
VARIABLES D, ph, k, p, x, ents, conns, lins, sets, out
vars == <<D, ph, k, p, x, ents, conns, lins, sets, out>>

V(n, ty, ca) == [n |-> n, ty |-> ty, ca |-> ca, vb |-> "continuous"]
Models == <<[name |-> "m", vars |-> <<V("o", "real", "out"), V("i", "real", "in"), V("n", "int", "out"), V("q", "real", "param")>>]>>
None3 == [given |-> FALSE, ok |-> TRUE, v |-> 0]
P(v, t, y) == [var |-> v, ty |-> t, v |-> y, ok |-> TRUE]
Set1(n, ps) == [name |-> n, ok |-> TRUE, ps |-> ps]
S(n, m, ps) == [name |-> n, src |-> m, model |-> m, look |-> "conf", hint |-> None3, conns |-> <<"o", "i", "z">>, psets |-> ps]
L(a, b, c, e) == [as |-> a, an |-> b, bs |-> c, bn |-> e, lin |-> <<>>, other |-> FALSE, numbers |-> TRUE]
T(y) == [y EXCEPT !.lin = <<[f |-> "2", o |-> "1"]>>]
UpTo(M, n) == UNION {[1..y -> M] : y \in 0..n}
PMenu == {P("i", "real", "1"), P("i", "real", "2"), P("q", "real", "3"), P("o", "real", "4"), P("i", "int", "5"), P("?", "real", "6")}
PSets == {<<>>} \cup {<<Set1(a, y)>> : a \in {"a"}, y \in UpTo(PMenu, 2)}
         \cup {<<Set1("a", <<y>>), Set1(b, <<z>>)>> : b \in {"a", "b"}, y \in PMenu, z \in PMenu}
LMenu == {L("A", "o", "B", "i"), L("B", "i", "A", "o"), L("B", "o", "A", "i"), L("A", "n", "B", "i"), L("A", "z", "B", "i"), L("C", "o", "B", "i"),
          [L("B", "o", "A", "i") EXCEPT !.other = TRUE]}
LMenu2 == LMenu \cup {T(y) : y \in LMenu}
Desc(ss, ls) == [valid |-> TRUE, start |-> None3, algo |-> None3, models |-> Models, sims |-> ss, links |-> ls, emds |-> <<>>]
Descs ==
    CASE Family = "links" -> {Desc(ss, ls) : ss \in {<<S("A", "m", <<>>), S("B", "m", <<>>)>>, <<S("A", "m", <<>>), S("A", "m", <<>>)>>}, ls \in UpTo(LMenu2, 3)}
      [] Family = "params" -> {Desc(<<S("A", "m", y)>> \o z, <<>>) : y \in PSets, z \in {<<>>, <<S("B", "m", <<Set1("b", <<P("i", "real", "7")>>)>>)>>, <<S("B", "?", <<>>)>>}}

Init == /\ D \in Descs /\ ph = "sims" /\ k = 1 /\ p = 0 /\ x = 1
        /\ ents = {} /\ conns = {} /\ lins = {} /\ sets = [n \in {""} |-> {}] /\ out = ""
Fail == out' = "refused" /\ UNCHANGED <<D, ph, k, p, x, ents, conns, lins, sets>>
Assign(vs, s, y) == {v \in vs : v[1] # s.name \/ v[2] # y.var} \cup {<<s.name, y.var, y.ty, y.v>>}
At(n) == IF n \in DOMAIN sets THEN sets[n] ELSE {}
With(f, n, v) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN v ELSE f[m]]
Sims ==
    /\ ph = "sims"
    /\ IF k > Len(D.sims) THEN ph' = "links" /\ k' = 1 /\ UNCHANGED <<D, p, x, ents, conns, lins, sets, out>>
       ELSE LET s == D.sims[k] IN
         IF p = 0 THEN
            IF s.name = "" \/ (\E e \in ents : e.name = s.name) \/ ~CompOk(D, s) THEN Fail
            ELSE ents' = ents \cup {CompEntity(s)} /\ p' = 1 /\ x' = 1 /\ UNCHANGED <<D, ph, k, conns, lins, sets, out>>
         ELSE IF p > Len(s.psets) THEN p' = 0 /\ k' = k + 1 /\ UNCHANGED <<D, ph, x, ents, conns, lins, sets, out>>
         ELSE LET ps == s.psets[p] IN
            IF x > Len(ps.ps) THEN p' = p + 1 /\ x' = 1 /\ sets' = With(sets, ps.name, At(ps.name)) /\ UNCHANGED <<D, ph, k, ents, conns, lins, out>>
            ELSE LET y == ps.ps[x]
                     s1 == With(sets, ps.name, Assign(At(ps.name), s, y))
                     s2 == IF p = 1 \/ Variant = "alldefault" THEN With(s1, "", Assign(s1[""], s, y)) ELSE s1
                 IN /\ sets' = IF Applies(D, s, y) THEN s2 ELSE sets
                    /\ x' = x + 1 /\ UNCHANGED <<D, ph, k, p, ents, conns, lins, out>>
Taken(t) == \E c \in conns \cup lins : c[2] = t
Links ==
    /\ ph = "links"
    /\ IF k > Len(D.links) THEN out' = "done" /\ UNCHANGED <<D, ph, k, p, x, ents, conns, lins, sets>>
       ELSE LET l == D.links[k]  e == LinkEdge(D, l) IN
            IF ~e.ok \/ Taken(e.tgt) THEN Fail
            ELSE /\ IF l.lin = <<>> THEN conns' = conns \cup {<<e.src, e.tgt>>} /\ UNCHANGED lins
                    ELSE lins' = lins \cup {<<e.src, e.tgt, l.lin[1].f, l.lin[1].o>>} /\ UNCHANGED conns
                 /\ k' = k + 1 /\ UNCHANGED <<D, ph, p, x, ents, sets, out>>
Next == out = "" /\ (Sims \/ Links)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exactly == out = "done" => SspWellformed(D) /\ LET y == SspSystem(D) IN
    ents = y.ents /\ conns = y.conns /\ lins = y.lins /\ {<<n, sets[n]>> : n \in DOMAIN sets} = y.sets
Refusal == out = "refused" => ~SspWellformed(D)
OneValue == \A n \in DOMAIN sets : \A a, b \in sets[n] : a[1] = b[1] /\ a[2] = b[2] => a = b
Ending == <>(out # "")
=============================================================================
