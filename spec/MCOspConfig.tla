---------------------------- MODULE MCOspConfig ----------------------------
(* A loader that goes through a description piece by piece, as the code     *)
(* does, against the meaning of the description as a whole.                 *)
EXTENDS OspConfig, TLC
CONSTANTS Family,   \* which descriptions
          Variant   \* "" or the wrong loader to be refuted
VARIABLES D, ph, k, todo, ents, conns, inits, out
vars == <<D, ph, k, todo, ents, conns, inits, out>>

V(n, ty, ca) == [n |-> n, ty |-> ty, ca |-> ca, vb |-> "continuous"]
G(n, vs, ss) == [name |-> n, vars |-> vs, subs |-> ss]
Models == <<[name |-> "m", vars |-> <<V("o", "real", "out"), V("p", "real", "out"), V("i", "real", "in"), V("j", "real", "in"), V("n", "int", "in")>>]>>
EmdG == <<G("go", <<"o">>, <<>>), G("gi", <<"i">>, <<>>), G("g2", <<"o", "p">>, <<>>), G("h2", <<"i", "j">>, <<>>),
          G("to", <<"o">>, <<G("x", <<>>, <<G("y", <<"p">>, <<>>)>>)>>), G("ti", <<"i">>, <<G("z", <<>>, <<G("w", <<"j">>, <<>>)>>)>>)>>
None3 == [given |-> FALSE, ok |-> TRUE, v |-> 0]
S(n, m, is) == [name |-> n, src |-> m, model |-> m, look |-> "conf", hint |-> None3, inits |-> is]
I(v, t, x) == [var |-> v, ty |-> t, v |-> x, ok |-> TRUE]
C(a, x, b, y) == [as |-> a, an |-> x, bs |-> b, bn |-> y]
F(kd, n, c, d) == [kind |-> kd, name |-> n, count |-> c, dim |-> d, factor |-> "1", offset |-> "0"]
Sg(f, kk, i, s, v) == [fun |-> f, sig |-> [k |-> kk, i |-> i], sim |-> s, var |-> v]
Sgg(f, kk, i, s, g) == [fun |-> f, sig |-> [k |-> kk, i |-> i], sim |-> s, grp |-> g]
UpTo(M, n) == UNION {[1..x -> M] : x \in 0..n}
A == S("A", "m", <<I("i", "real", "1"), I("i", "real", "2")>>)
B == S("B", "m", <<>>)
SimMenu == {<<A, B>>}
SimMenu2 == {<<>>, <<A>>, <<A, B>>, <<A, A>>, <<A, S("B", "?", <<>>)>>, <<A, S("", "m", <<>>)>>, <<S("A", "m", <<I("i", "int", "1")>>), B>>, <<S("A", "m", <<I("q", "int", "1")>>), B>>}
VMenu == {C("A", "o", "B", "i"), C("B", "i", "A", "p"), C("A", "o", "B", "n"), C("A", "i", "B", "i"), C("A", "o", "B", "p"), C("A", "q", "B", "i"), C("X", "o", "B", "i")}
GMenu == {C("A", "go", "B", "gi"), C("B", "gi", "A", "go"), C("A", "g2", "B", "h2"), C("A", "g2", "B", "gi"), C("A", "to", "B", "ti"), C("A", "y", "B", "w"),
          C("A", "nx", "B", "ny"), C("A", "go", "B", "ny"), C("A", "x", "B", "z"), C("A", "to", "B", "gi")}
SMenu == {Sg("f", "in", -1, "A", "o"), Sg("f", "out", -1, "B", "i"), Sg("f", "out", -1, "B", "j"), Sg("f", "in", 0, "A", "o"), Sg("f", "in", 1, "A", "p"), Sg("f", "in", 2, "A", "p"),
          Sg("e", "in", -1, "A", "o"), Sg("f", "out", -1, "B", "n"), Sg("f", "in", -1, "B", "p")}
SGMenu == {Sgg("f", "in", 0, "A", "g2"), Sgg("f", "out", -1, "B", "h2"), Sgg("f", "out", -1, "A", "h2"), Sgg("f", "in", 1, "A", "g2"), Sgg("f", "in", 0, "A", "go"), Sgg("f", "out", -1, "B", "gi"),
           Sgg("f", "in", 0, "B", "nx")}
Desc(sims, vs, gs, fs, ss, sgs) ==
    [valid |-> TRUE, start |-> None3, stop |-> None3, step |-> None3, models |-> Models,
     emds |-> <<[dir |-> "conf", model |-> "m", bad |-> FALSE, groups |-> EmdG]>>,
     sims |-> sims, funs |-> fs, vcs |-> vs, gcs |-> gs, scs |-> ss, sgs |-> sgs]
Descs ==
    CASE Family = "conns" -> {Desc(s, v, g, <<>>, <<>>, <<>>) : s \in SimMenu, v \in UpTo(VMenu, 2), g \in UpTo(GMenu, 2)}
      [] Family = "sims" -> {Desc(s, v, g, f, <<>>, <<>>) : s \in SimMenu2, v \in UpTo(VMenu, 1), g \in UpTo(GMenu, 1), f \in {<<>>, <<F("sum", "A", 1, 1)>>}}
      [] Family = "signals" -> {Desc(s, v, <<>>, f, x, <<>>) : s \in SimMenu, v \in UpTo({C("A", "o", "B", "i")}, 1),
                                 f \in {<<>>, <<F("lin", "f", 0, 0)>>, <<F("sum", "f", 2, 1)>>, <<F("lin", "f", 0, 0), F("sum", "f", 1, 1)>>, <<F("vec", "f", 1, 2)>>}, x \in UpTo(SMenu, 3)}
      [] Family = "vectors" -> {Desc(s, <<>>, g, f, <<>>, x) : s \in SimMenu, g \in UpTo({C("A", "go", "B", "gi")}, 1),
                                 f \in {<<F("vec", "f", 1, 2)>>, <<F("vec", "f", 2, 2)>>, <<F("vec", "f", 1, 1)>>, <<F("lin", "f", 0, 0)>>}, x \in UpTo(SGMenu, 3)}

Init == /\ D \in Descs /\ ph = "sims" /\ k = 1 /\ todo = <<>>
        /\ ents = {} /\ conns = {} /\ inits = {} /\ out = ""
Fail == out' = "refused" /\ UNCHANGED <<D, ph, k, todo, ents, conns, inits>>
Taken(t) == \E c \in conns : c[2] = t
Put(e, rest) == IF ~e.ok \/ Taken(e.tgt) THEN Fail
                ELSE conns' = conns \cup {<<e.src, e.tgt>>} /\ rest
Known(n) == \E e \in ents : e.name = n
To(p) == ph' = p /\ k' = 1 /\ todo' = <<>> /\ UNCHANGED <<D, ents, conns, inits, out>>

Sims ==
    /\ ph = "sims"
    /\ IF k > Len(D.sims) THEN To("vcs")
       ELSE LET s == D.sims[k] IN
            IF s.name = "" \/ Known(s.name) \/ ~SimOk(D, s) THEN Fail
            ELSE /\ ents' = ents \cup {SimEntity(s)} /\ k' = k + 1
                 /\ inits' = inits \cup {<<s.name, v, LastOf(s, v).ty, LastOf(s, v).v>> : v \in {x.var : x \in Range(s.inits)}}
                 /\ UNCHANGED <<D, ph, todo, conns, out>>
Vcs ==
    /\ ph = "vcs"
    /\ IF k > Len(D.vcs) THEN To("gcs")
       ELSE LET c == D.vcs[k] IN
            Put(VarEdge(D, c.as, c.an, c.bs, c.bn), k' = k + 1 /\ UNCHANGED <<D, ph, todo, ents, inits, out>>)
\* todo: a stack of pairs of groups and variables yet to be connected
Gcs ==
    /\ ph = "gcs"
    /\ IF todo # <<>>
       THEN LET t == Head(todo)  more == Tail(todo) IN
            IF t.var THEN Put(VarEdge(D, t.as, t.a, t.bs, t.b), todo' = more /\ UNCHANGED <<D, ph, k, ents, inits, out>>)
            ELSE IF Variant # "shapes" /\ (Len(t.a.subs) # Len(t.b.subs) \/ Len(t.a.vars) # Len(t.b.vars)) THEN Fail
            ELSE LET Min(x, y) == IF x < y THEN x ELSE y IN
                 /\ todo' = [i \in 1..Min(Len(t.a.subs), Len(t.b.subs)) |-> [t EXCEPT !.a = t.a.subs[i], !.b = t.b.subs[i]]]
                            \o [i \in 1..Min(Len(t.a.vars), Len(t.b.vars)) |-> [t EXCEPT !.a = t.a.vars[i], !.b = t.b.vars[i], !.var = TRUE]] \o more
                 /\ UNCHANGED <<D, ph, k, ents, conns, inits, out>>
       ELSE IF k > Len(D.gcs) THEN To("names")
       ELSE LET c == D.gcs[k]  X == Groups(D, c.as, c.an)  Y == Groups(D, c.bs, c.bn) IN
            IF Variant = "unknown" /\ X = {} /\ Y = {} THEN k' = k + 1 /\ UNCHANGED <<D, ph, todo, ents, conns, inits, out>>
            ELSE IF X = {} \/ Y = {} THEN Fail
            ELSE /\ todo' = <<[as |-> c.as, bs |-> c.bs, a |-> Pick(X), b |-> Pick(Y), var |-> FALSE]>>
                 /\ k' = k + 1 /\ UNCHANGED <<D, ph, ents, conns, inits, out>>
\* signals of functions that do not exist
Names ==
    /\ ph = "names"
    /\ IF /\ \A c \in Range(D.scs) : \E f \in Range(D.funs) : f.name = c.fun /\ c.sig \in Signals(f)
          /\ \A c \in Range(D.sgs) : \E f \in Range(D.funs) : f.name = c.fun /\ c.sig \in SignalGroups(f)
       THEN To("funs") ELSE Fail
\* one function at a time; todo: the edges of the present one
Of(f) == {i \in DOMAIN D.scs : D.scs[i].fun = f.name}
OfG(f) == {i \in DOMAIN D.sgs : D.sgs[i].fun = f.name}
RECURSIVE Listed(_)
Listed(is) == IF is = {} THEN <<>> ELSE LET i == CHOOSE x \in is : \A y \in is : x <= y IN <<i>> \o Listed(is \ {i})
First(is, sigOf(_)) == {i \in is : Variant # "first" \/ \A j \in is : sigOf(j) = sigOf(i) => i <= j}
Funs ==
    /\ ph = "funs"
    /\ IF todo # <<>> THEN Put(Head(todo), todo' = Tail(todo) /\ UNCHANGED <<D, ph, k, ents, inits, out>>)
       ELSE IF k > Len(D.funs) THEN out' = "done" /\ UNCHANGED <<D, ph, k, todo, ents, conns, inits>>
       ELSE LET f == D.funs[k]
                a == LET l == Listed(First(Of(f), LAMBDA i : D.scs[i].sig)) IN Concat([x \in 1..Len(l) |-> SignalConn(D, D.scs[l[x]])])
                b == LET l == Listed(First(OfG(f), LAMBDA i : D.sgs[i].sig)) IN Concat([x \in 1..Len(l) |-> SignalGroupConn(D, D.sgs[l[x]])])
            IN IF f.name = "" \/ Known(f.name) \/ ~Connected(D, f) THEN Fail
               ELSE /\ ents' = ents \cup {FunEntity(f)} /\ todo' = a \o b /\ k' = k + 1
                    /\ UNCHANGED <<D, ph, conns, inits, out>>
Next == out = "" /\ (Sims \/ Vcs \/ Gcs \/ Names \/ Funs)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exactly == out = "done" => Wellformed(D) /\ ents = System(D).ents /\ conns = System(D).conns /\ inits = System(D).inits
Refusal == out = "refused" => ~Wellformed(D)
\* said once more: what a loaded system is like
OneSource == \A x, y \in conns : x[2] = y[2] => x = y
Typed == \A c \in conns : \A e \in {c[1], c[2]} : e[1] = "s" => HasVar(D, e[2], e[3])
NoLoss == out = "done" => \A c \in Range(D.vcs) : \E x \in conns :
    {x[1], x[2]} = {SimEnd(c.as, c.an), SimEnd(c.bs, c.bn)}
Ending == <>(out # "")
=============================================================================
