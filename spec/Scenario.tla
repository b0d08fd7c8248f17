------------------------------- MODULE Scenario ----------------------------
(***************************************************************************)
(* scenario_manager: plays a list of timed events, and the reading of         *)
(* scenario files.                                                          *)
(* An event is [t, i, v, m]; m = <<0,0>> reset, <<1,x>> override, <<2,x>> bias *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, Z
zvars == <<cfg, Z>>
NoEnd == -1
InitZ == Z = [run |-> FALSE, start |-> 0, end |-> NoEnd, rem |-> <<>>, touched |-> {}, mod |-> <<>>, fired |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Install(mod, e) == IF e.m[1] = 0 THEN Del(mod, {<<e.i, e.v>>}) ELSE Put(mod, <<e.i, e.v>>, e.m)
RECURSIVE Fold(_, _)
Fold(mod, q) == IF q = <<>> THEN mod ELSE Fold(Install(mod, Head(q)), Tail(q))
\* stable insertion by time
RECURSIVE ByTime(_)
ByTime(q) ==
    IF q = <<>> THEN <<>>
    ELSE LET r == ByTime(SubSeq(q, 1, Len(q) - 1))
             e == q[Len(q)]
             before == SelectSeq(r, LAMBDA x : x.t <= e.t)
             after == SelectSeq(r, LAMBDA x : x.t > e.t)
         IN before \o <<e>> \o after

Load(events, end, now) ==
    /\ Z' = [run |-> TRUE, start |-> now, end |-> end, rem |-> ByTime(events), touched |-> {},
             mod |-> Del(Z.mod, IF Z.run THEN Z.touched ELSE {}), fired |-> <<>>]
    /\ UNCHANGED cfg
Abort ==
    /\ Z' = IF Z.run THEN [Z EXCEPT !.run = FALSE, !.mod = Del(@, Z.touched), !.touched = {}, !.rem = <<>>] ELSE Z
    /\ UNCHANGED cfg
\* somebody else installs a modifier
Other(i, v, m) ==
    /\ Z' = [Z EXCEPT !.mod = Install(@, [i |-> i, v |-> v, m |-> m])]
    /\ UNCHANGED cfg
Step(now) ==
    /\ LET rel == now - Z.start
           over == Z.rem = <<>> /\ (Z.end = NoEnd \/ rel >= Z.end)
           due == SelectSeq(Z.rem, LAMBDA e : e.t <= rel)
       IN Z' = IF ~Z.run THEN Z
               ELSE IF over THEN [Z EXCEPT !.run = FALSE, !.mod = Del(@, Z.touched), !.touched = {}]
               ELSE [Z EXCEPT !.rem = SelectSeq(@, LAMBDA e : e.t > rel),
                              !.touched = @ \cup {<<due[k].i, due[k].v>> : k \in DOMAIN due},
                              !.mod = Fold(@, due),
                              !.fired = @ \o [k \in DOMAIN due |-> [e |-> due[k], at |-> rel]]]
    /\ UNCHANGED cfg

---------------------------------------------------------------------------
(* Scenario files.  A document is [dm, dv, da: defaults ("" if absent),       *)
(* end: NoEnd or time, bad: unparsable?, ev: sequence of                      *)
(* [ht: time given?, t, m, v, a: strings ("" if absent), vk: kind of value     *)
(* ("none", "int", "frac", "real", "bool", "str"), x: its number]].                   *)
(* cfg.sims[i] = [name, vars: sequence of [name, ty, ca]]                     *)
Or(a, b) == IF a # "" THEN a ELSE b
SimNamed(n) == {i \in DOMAIN cfg.sims : cfg.sims[i].name = n}
VarNamed(i, n) == {v \in DOMAIN cfg.sims[i].vars : cfg.sims[i].vars[v].name = n}
ValueFits(ty, vk) ==
    CASE ty = 1 -> vk \in {"int", "real"}
      [] ty = 2 -> vk = "int"
      [] ty = 3 -> vk = "bool"
      [] ty = 4 -> vk \in {"str"}
ActionFits(ty, a) == a = "override" \/ (a = "bias" /\ ty \in {1, 2})
Bad == [ok |-> FALSE]
ReadEvent(d, e) ==
    LET mn == Or(e.m, d.dm)
        vn == Or(e.v, d.dv)
        an == Or(e.a, d.da)
    IN IF ~e.ht \/ mn = "" \/ vn = "" \/ an = "" THEN Bad
       ELSE IF SimNamed(mn) = {} THEN Bad
       ELSE LET i == CHOOSE i \in SimNamed(mn) : TRUE IN
            IF VarNamed(i, vn) = {} THEN Bad
            ELSE LET v == CHOOSE v \in VarNamed(i, vn) : TRUE
                     q == cfg.sims[i].vars[v]
                 IN IF q.ca \notin {1, 2, 3, 4} \/ q.ty \notin {1, 2, 3, 4} THEN Bad
                    ELSE IF an = "reset" THEN [ok |-> TRUE, ev |-> [t |-> e.t, i |-> i, v |-> v, m |-> <<0, 0>>]]
                    ELSE IF ~ValueFits(q.ty, e.vk) \/ ~ActionFits(q.ty, an) THEN Bad
                    ELSE [ok |-> TRUE, ev |-> [t |-> e.t, i |-> i, v |-> v, m |-> <<IF an = "override" THEN 1 ELSE 2, e.x>>]]
ReadDoc(d) ==
    LET r == [k \in DOMAIN d.ev |-> ReadEvent(d, d.ev[k])] IN
    IF d.bad \/ \E k \in DOMAIN r : ~r[k].ok THEN Bad
    ELSE [ok |-> TRUE, ev |-> [k \in DOMAIN r |-> r[k].ev]]
LoadFile(d, now, ok) ==
    LET r == ReadDoc(d) IN
    /\ ok = r.ok
    /\ IF r.ok THEN Load(r.ev, d.end, now) ELSE UNCHANGED zvars
=============================================================================
