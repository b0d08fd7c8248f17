----------------------------- MODULE OspConfig -----------------------------
(* What an OSP-IS system structure description means: a system, or nothing  *)
(* (the description is refused).                                            *)
(*                                                                          *)
(* A description D is                                                       *)
(*   [valid   : whether the text conforms to the schema,                    *)
(*    start, stop, step : numbers, sims, funs : sequences,                  *)
(*    vcs, gcs : connections between variables and between groups of them,  *)
(*    scs, sgs : connections of function signals and signal groups,         *)
(*    emds     : the model descriptions (groups of variables) at hand,      *)
(*    models   : the models at hand]                                        *)
(* A number is [given, ok, v]: absent, not a (finite, representable) number *)
(* or v microseconds.                                                       *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Concat(ss) == LET RECURSIVE Cat(_, _)
                  Cat(s, n) == IF n = 0 THEN <<>> ELSE Cat(s, n - 1) \o s[n]
              IN Cat(ss, Len(ss))
Pick(S) == CHOOSE x \in S : TRUE
Num(x, default) == IF x.given THEN x.v ELSE default
DefaultStep == 100000

----------------------------------------------------------------------------
\* Entities and their variables
SimsNamed(D, n) == {s \in Range(D.sims) : s.name = n}
FunsNamed(D, n) == {f \in Range(D.funs) : f.name = n}
ModelOf(D, s) == {m \in Range(D.models) : m.name = s.model}
\* the description of variable v of simulator s: a set of at most one
VarsOf(D, s, v) == UNION {{x \in Range(m.vars) : x.n = v} : m \in UNION {ModelOf(D, y) : y \in SimsNamed(D, s)}}
HasVar(D, s, v) == VarsOf(D, s, v) # {}
Var(D, s, v) == Pick(VarsOf(D, s, v))
Gives(x) == x.ca \in {"out", "calc"}
Takes(x) == x.ca = "in" /\ x.vb \notin {"constant", "fixed"}

\* Ends of connections
SimEnd(s, v) == <<"s", s, v, 0, 0>>
FunEnd(f, g, i, j) == <<"f", f, g, i, j>>
Edge(a, b, ok) == [src |-> a, tgt |-> b, ok |-> ok]
Broken == Edge(<<>>, <<>>, FALSE)

----------------------------------------------------------------------------
\* Two variables: the one that can give is the source.
VarEdge(D, as, an, bs, bn) ==
    IF ~HasVar(D, as, an) \/ ~HasVar(D, bs, bn) THEN Broken
    ELSE LET a == Var(D, as, an)  b == Var(D, bs, bn) IN
         IF Gives(a) THEN Edge(SimEnd(as, an), SimEnd(bs, bn), Takes(b) /\ a.ty = b.ty)
         ELSE Edge(SimEnd(bs, bn), SimEnd(as, an), Gives(b) /\ Takes(a) /\ a.ty = b.ty)

----------------------------------------------------------------------------
\* Groups.  The model description of a simulator is the one beside its
\* model, or else the one beside the configuration.
EmdAt(D, dir, m) == {e \in Range(D.emds) : e.dir = dir /\ e.model = m}
EmdOf(D, s) == IF EmdAt(D, s.look, s.model) # {} THEN EmdAt(D, s.look, s.model) ELSE EmdAt(D, "conf", s.model)
RECURSIVE Inside(_)
Inside(gs) == UNION {{g} \cup Inside(g.subs) : g \in Range(gs)}
\* a group is referred to by its name: one at the top, or else one further in
Groups(D, sn, gn) ==
    LET gs == UNION {IF e.bad THEN {} ELSE {e.groups} : e \in UNION {EmdOf(D, s) : s \in SimsNamed(D, sn)}}
        top == UNION {{g \in Range(t) : g.name = gn} : t \in gs}
    IN IF top # {} THEN top ELSE UNION {{g \in Inside(t) : g.name = gn} : t \in gs}
RECURSIVE GroupEdges(_, _, _, _, _)
\* member by member, those of inner groups first
GroupEdges(D, as, a, bs, b) ==
    IF Len(a.subs) # Len(b.subs) \/ Len(a.vars) # Len(b.vars) THEN <<Broken>>
    ELSE Concat([i \in 1..Len(a.subs) |-> GroupEdges(D, as, a.subs[i], bs, b.subs[i])])
         \o [i \in 1..Len(a.vars) |-> VarEdge(D, as, a.vars[i], bs, b.vars[i])]
GroupConn(D, c) ==
    LET A == Groups(D, c.as, c.an)  B == Groups(D, c.bs, c.bn) IN
    IF A = {} \/ B = {} THEN <<Broken>> ELSE GroupEdges(D, c.as, Pick(A), c.bs, Pick(B))

----------------------------------------------------------------------------
\* Functions.  A signal is [k, i]: its kind and index (-1: none); a signal
\* group likewise.  Signals are real numbers.
InEdge(D, s, v, t) ==
    IF ~HasVar(D, s, v) THEN Broken ELSE LET x == Var(D, s, v) IN Edge(SimEnd(s, v), t, Gives(x) /\ x.ty = "real")
OutEdge(D, f, s, v) ==
    IF ~HasVar(D, s, v) THEN Broken ELSE LET x == Var(D, s, v) IN Edge(f, SimEnd(s, v), Takes(x) /\ x.ty = "real")
Signals(f) ==
    CASE f.kind = "lin" -> {[k |-> "in", i |-> -1], [k |-> "out", i |-> -1]}
      [] f.kind = "sum" -> {[k |-> "in", i |-> i] : i \in 0..f.count - 1} \cup {[k |-> "out", i |-> -1]}
      [] OTHER -> {}
SignalGroups(f) ==
    IF f.kind = "vec" THEN {[k |-> "in", i |-> i] : i \in 0..f.count - 1} \cup {[k |-> "out", i |-> -1]} ELSE {}
Ix(sig) == IF sig.i < 0 THEN 0 ELSE sig.i
SignalConn(D, c) ==
    LET fs == {f \in FunsNamed(D, c.fun) : c.sig \in Signals(f)} IN
    IF fs = {} THEN <<Broken>>
    ELSE LET e == FunEnd(c.fun, c.sig.k, Ix(c.sig), 0) IN
         IF c.sig.k = "in" THEN <<InEdge(D, c.sim, c.var, e)>> ELSE <<OutEdge(D, e, c.sim, c.var)>>
SignalGroupConn(D, c) ==
    LET fs == {f \in FunsNamed(D, c.fun) : c.sig \in SignalGroups(f)}
        gs == Groups(D, c.sim, c.grp)
    IN IF fs = {} \/ gs = {} THEN <<Broken>>
       ELSE LET g == Pick(gs)  f == Pick(fs) IN
            IF g.subs # <<>> \/ Len(g.vars) # f.dim THEN <<Broken>>
            ELSE [j \in 1..f.dim |->
                    LET e == FunEnd(c.fun, c.sig.k, Ix(c.sig), j - 1) IN
                    IF c.sig.k = "in" THEN InEdge(D, c.sim, g.vars[j], e) ELSE OutEdge(D, e, c.sim, g.vars[j])]
\* what must be connected
Connected(D, f) ==
    /\ \A s \in Signals(f) : \E c \in Range(D.scs) : c.fun = f.name /\ c.sig = s
    /\ \A s \in SignalGroups(f) : \E c \in Range(D.sgs) : c.fun = f.name /\ c.sig = s

----------------------------------------------------------------------------
\* The meaning as a whole
EdgesOf(D) ==
    [i \in 1..Len(D.vcs) |-> VarEdge(D, D.vcs[i].as, D.vcs[i].an, D.vcs[i].bs, D.vcs[i].bn)]
    \o Concat([i \in 1..Len(D.gcs) |-> GroupConn(D, D.gcs[i])])
    \o Concat([i \in 1..Len(D.scs) |-> SignalConn(D, D.scs[i])])
    \o Concat([i \in 1..Len(D.sgs) |-> SignalGroupConn(D, D.sgs[i])])

TimesOk(D) ==
    /\ D.start.ok /\ D.stop.ok /\ D.step.ok
    /\ Num(D.step, DefaultStep) > 0
    /\ D.stop.given => Num(D.start, 0) <= D.stop.v
NamesOk(D) ==
    LET ns == [i \in 1..Len(D.sims) |-> D.sims[i].name] \o [i \in 1..Len(D.funs) |-> D.funs[i].name] IN
    /\ "" \notin Range(ns)
    /\ Cardinality(Range(ns)) = Len(ns)
InitOk(D, s, x) ==
    /\ x.ok /\ HasVar(D, s.name, x.var)
    /\ LET v == Var(D, s.name, x.var) IN v.ty = x.ty /\ v.vb # "constant"
SimOk(D, s) ==
    /\ ModelOf(D, s) # {} /\ s.hint.ok /\ Num(s.hint, 0) >= 0
    /\ \A x \in Range(s.inits) : InitOk(D, s, x)
    /\ \A e \in EmdOf(D, s) : ~e.bad
EdgesOk(es) ==
    /\ \A i \in DOMAIN es : es[i].ok
    /\ \A i, j \in DOMAIN es : es[i].tgt = es[j].tgt => i = j

Wellformed(D) ==
    /\ D.valid /\ TimesOk(D) /\ NamesOk(D)
    /\ \A s \in Range(D.sims) : SimOk(D, s)
    /\ EdgesOk(EdgesOf(D))
    /\ \A f \in Range(D.funs) : Connected(D, f)

\* of several values for a variable, the last holds
LastOf(s, v) == LET is == {i \in DOMAIN s.inits : s.inits[i].var = v} IN
                s.inits[CHOOSE i \in is : \A j \in is : j <= i]
SimEntity(s) == [name |-> s.name, kind |-> "sim", src |-> s.src, a |-> Num(s.hint, 0), b |-> 0, p |-> "", q |-> ""]
\* (a sum is a sum of vectors of dimension 1)
FunEntity(f) ==
    IF f.kind = "lin" THEN [name |-> f.name, kind |-> "lin", src |-> "", a |-> 0, b |-> 0, p |-> f.factor, q |-> f.offset]
    ELSE [name |-> f.name, kind |-> "vec", src |-> "", a |-> f.count, b |-> IF f.kind = "sum" THEN 1 ELSE f.dim, p |-> "", q |-> ""]
System(D) ==
    [start |-> Num(D.start, 0), stop |-> IF D.stop.given THEN <<D.stop.v>> ELSE <<>>, step |-> Num(D.step, DefaultStep),
     ents  |-> {SimEntity(s) : s \in Range(D.sims)} \cup {FunEntity(f) : f \in Range(D.funs)},
     conns |-> {<<e.src, e.tgt>> : e \in Range(EdgesOf(D))},
     inits |-> UNION {{<<s.name, v, LastOf(s, v).ty, LastOf(s, v).v>> : v \in {x.var : x \in Range(s.inits)}} : s \in Range(D.sims)}]
=============================================================================
