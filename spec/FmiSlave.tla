------------------------------ MODULE FmiSlave ------------------------------
(***************************************************************************)
(* How libcosim drives an FMU through FMI Library (v = 1, 2) or proxyfmu     *)
(* (v = 3), and what it makes of the answers.                                *)
(*                                                                         *)
(* Two things are specified side by side: the order of calls that the FMI    *)
(* standard permits (Legal, Moved), for each handle by itself, and the calls *)
(* that one operation of libcosim's `slave' and `fmu' interfaces consists of *)
(* (Plan, Rescue) with the outcome it has for its user (Outcome).            *)
(*                                                                         *)
(*   F.x     handle -> its state in the FMU's eyes                           *)
(*   F.s     slave -> [x, ph]: its handle and where its user is with it      *)
(*   F.md    handle by which the FMU's description was read, 0: none         *)
(*   F.held  the user holds the FMU                                          *)
(*   F.p     the operation under way, or <<>>: [op, h, todo, i, st, lg]      *)
(*           todo: the calls still to come, st: the last status,             *)
(*           lg: the last message logged during it                           *)
(* Statuses: 0 ok, 1 warning, 2 discard, 3 error, 4 fatal, 5 pending.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE F
FInit == F = [x |-> <<>>, s |-> <<>>, md |-> 0, held |-> FALSE, p |-> <<>>]
FPut(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
FDel(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
Good(v, st) == st = 0 \/ (st = 1 /\ v # 3)

(*---------------------------- the standard ------------------------------*)
\* xml, dll, inst, exp, init, run, over, err (after an error nothing but freeing), gone
Legal(v, z, f) ==
    CASE f = "create" -> v # 3 /\ z = "xml"
      [] f = "instantiate" -> z = "dll" \/ (v = 3 /\ z = "xml")
      [] f = "setup_experiment" -> v # 1 /\ z = "inst"
      [] f = "enter" -> v # 1 /\ z = "exp"
      [] f = "exit" -> v # 1 /\ z = "init"
      [] f = "initialize" -> v = 1 /\ z = "inst"
      [] f \in {"get", "set"} -> z \in {"init", "run"} \/ (v = 1 /\ z = "inst")
      [] f = "do_step" -> z = "run"
      [] f = "terminate" -> z \in {"run", "stopped"}
      [] f = "free" -> z \in {"inst", "exp", "init", "run", "stopped", "over", "err"}
      [] f = "destroy" -> z \in {"dll", "gone"}
      [] f = "free_xml" -> z \in {"xml"} \/ (v = 3 /\ z = "gone")
      [] OTHER -> FALSE
\* the state a call leaves a handle in; a refused step leaves it able to end only
Moved(v, z, f, st) ==
    IF f \in {"create", "instantiate"} THEN (IF st = 0 THEN (IF f = "create" THEN "dll" ELSE "inst") ELSE z)
    ELSE IF f = "destroy" THEN "xml"
    ELSE IF f = "free" THEN "gone"
    ELSE IF f = "terminate" THEN "over"
    ELSE IF f = "do_step" /\ st = 2 /\ v # 3 THEN "stopped"
    ELSE IF f = "set" /\ st = 2 /\ v # 3 THEN z
    ELSE IF ~Good(v, st) THEN "err"
    ELSE CASE f = "setup_experiment" -> "exp" [] f = "enter" -> "init" [] f = "exit" -> "run"
           [] f = "initialize" -> "run" [] OTHER -> z

(*------------------------------- libcosim -------------------------------*)
\* phases of a slave: made, set, run, over, broken, stopped (a step did not complete)
Alone(h) == DOMAIN F.s \ {h} = {}
Closing(v, h) == LET q == F.s[h] IN
    (IF q.ph \in {"run", "stopped"} THEN <<[f |-> "terminate", x |-> q.x]>> ELSE <<>>)
    \o <<[f |-> "free", x |-> q.x]>>
    \o (IF v = 3 THEN <<>> ELSE <<[f |-> "destroy", x |-> q.x]>>)
    \o <<[f |-> "free_xml", x |-> q.x]>>
    \o (IF v # 3 /\ ~F.held /\ Alone(h) THEN <<[f |-> "free_xml", x |-> F.md]>> ELSE <<>>)
\* x = 0: a new handle or the slave's own
Plan(v, op, h, empty, refused) ==
    LET own(f) == <<[f |-> f, x |-> F.s[h].x]>> IN
    IF refused THEN <<>>
    ELSE CASE op = "load" -> IF v = 3 THEN <<>> ELSE <<[f |-> "xml", x |-> 0]>>
      [] op = "inst" -> IF v = 3 THEN <<[f |-> "instantiate", x |-> 0]>>
                        ELSE <<[f |-> "xml", x |-> 0], [f |-> "create", x |-> 0], [f |-> "instantiate", x |-> 0]>>
      [] op = "setup" -> IF v = 1 THEN <<>> ELSE own("setup_experiment") \o own("enter")
      [] op = "start" -> IF v = 1 THEN own("initialize") ELSE own("exit")
      [] op = "end" -> own("terminate")
      [] op = "step" -> own("do_step")
      [] op \in {"get", "set"} -> IF empty THEN <<>> ELSE own(op)
      [] op \in {"getx", "setx"} -> <<>>
      [] op = "drop" -> Closing(v, h)
      [] op = "dropfmu" -> IF v # 3 /\ F.held /\ F.s = <<>> THEN <<[f |-> "free_xml", x |-> F.md]>> ELSE <<>>
\* what is still done after a call that failed
Rescue(op, f, x) ==
    IF op \in {"drop", "dropfmu"} THEN Tail(F.p.todo)
    ELSE IF op # "inst" THEN <<>>
    ELSE IF f = "create" THEN <<[f |-> "free_xml", x |-> x]>>
    ELSE IF f = "instantiate" THEN <<[f |-> "destroy", x |-> x], [f |-> "free_xml", x |-> x]>>
    ELSE <<>>
Outcome(v, op, f, st) ==
    IF op \in {"drop", "dropfmu"} THEN "ok"
    ELSE IF op \in {"getx", "setx"} THEN "invalid"
    ELSE IF Good(v, st) THEN "ok"
    ELSE IF op \in {"load", "inst"} /\ f = "xml" THEN "badfile"
    ELSE IF op = "inst" /\ f = "create" THEN "dl"
    ELSE IF op = "step" /\ st = 2 /\ v # 3 THEN "failed"
    ELSE IF op = "step" /\ st = 5 /\ v = 2 THEN "unsupported"
    ELSE IF op = "set" /\ st = 2 /\ v # 3 THEN "badval"
    ELSE "model"

\* The operations, as their user asks for them.  `no' is the refusal that the
\* arguments alone call for, "" if none.
Allowed(op, h) ==
    CASE op = "load" -> F.md = 0 /\ ~F.held
      [] op = "dropfmu" -> F.held
      [] op = "inst" -> F.held /\ h \notin DOMAIN F.s
      [] op = "drop" -> h \in DOMAIN F.s
      [] OTHER -> h \in DOMAIN F.s /\ CASE op = "setup" -> F.s[h].ph = "made"
                                        [] op = "start" -> F.s[h].ph = "set"
                                        [] op \in {"get", "set", "getx", "setx"} -> F.s[h].ph \in {"set", "run"}
                                        [] op \in {"step", "end"} -> F.s[h].ph = "run"
Begin(v, op, h, empty, no) ==
    /\ F.p = <<>> /\ Allowed(op, h)
    /\ F' = [F EXCEPT !.p = [op |-> op, h |-> h, todo |-> Plan(v, op, h, empty, no # ""), f |-> "", x |-> 0, st |-> 0, lg |-> 0, no |-> no]]
\* the FMU is called, and answers st
Call(v, f, x, st, lg) ==
    /\ F.p # <<>> /\ F.p.todo # <<>>
    /\ LET c == Head(F.p.todo)
           q == IF f \in {"xml"} \/ (v = 3 /\ f = "instantiate") THEN x ELSE IF c.x = 0 THEN F.p.x ELSE c.x IN
       /\ f = c.f /\ x = q
       /\ LET new == f = "xml" \/ (v = 3 /\ f = "instantiate")
              z == IF new THEN "xml" ELSE F.x[x]
              z2 == IF f = "xml" THEN "xml" ELSE Moved(v, z, f, st) IN
          /\ new => x \notin DOMAIN F.x
          /\ ~new => x \in DOMAIN F.x
          /\ f # "xml" => Legal(v, z, f)
          /\ F' = [F EXCEPT !.x = IF f = "free_xml" THEN FDel(@, x)
                                  ELSE IF f = "xml" /\ st # 0 THEN @
                                  ELSE FPut(@, x, z2),
                            !.p.todo = IF Good(v, st) THEN Tail(@) ELSE Rescue(F.p.op, f, x),
                            !.p.f = IF Good(v, F.p.st) THEN f ELSE @,
                            !.p.x = IF Good(v, F.p.st) THEN x ELSE @,
                            !.p.st = IF Good(v, F.p.st) THEN st ELSE @,
                            !.p.lg = IF lg # 0 THEN lg ELSE @]
\* the operation comes back to its user
Phase(op, r, ph) == IF r \in {"badval", "invalid"} THEN ph
                    ELSE IF r = "failed" THEN "stopped"
                    ELSE IF r # "ok" THEN "broken"
                    ELSE CASE op = "setup" -> "set" [] op = "start" -> "run" [] op = "end" -> "over" [] OTHER -> ph
Result(v) == LET p == F.p IN IF p.no # "" THEN p.no ELSE Outcome(v, p.op, p.f, p.st)
End(v, r) ==
    /\ F.p # <<>> /\ F.p.todo = <<>> /\ r = Result(v)
    /\ LET p == F.p IN
       F' = CASE p.op = "load" -> [F EXCEPT !.p = <<>>, !.held = r = "ok", !.md = IF r = "ok" THEN p.x ELSE 0]
              [] p.op = "dropfmu" -> [F EXCEPT !.p = <<>>, !.held = FALSE, !.md = IF F.s = <<>> THEN 0 ELSE @]
              [] p.op = "inst" -> [F EXCEPT !.p = <<>>, !.s = IF r = "ok" THEN FPut(@, p.h, [x |-> p.x, ph |-> "made"]) ELSE @]
              [] p.op = "drop" -> [F EXCEPT !.p = <<>>, !.s = FDel(@, p.h), !.md = IF ~F.held /\ Alone(p.h) THEN 0 ELSE @]
              [] OTHER -> [F EXCEPT !.p = <<>>, !.s[p.h].ph = Phase(p.op, r, @)]

\* between operations, exactly the handles of live slaves and of the FMU are open
Accounted(v) == F.p = <<>> => DOMAIN F.x = {F.s[h].x : h \in DOMAIN F.s} \cup (IF v # 3 /\ (F.held \/ F.s # <<>>) THEN {F.md} ELSE {})
Apart == F.p = <<>> => \A g, h \in DOMAIN F.s : g # h => F.s[g].x # F.s[h].x

(*-------------------------- what an FMU describes ------------------------*)
\* FMI's types: 0 real, 1 integer, 2 boolean, 3 string, 4 enumeration (left out)
\* FMI 1 causality: 0 input, 1 output, 2 internal, 3 none; variability: 0 constant, 1 parameter, 2 discrete, 3 continuous
\* FMI 2 causality: 1 parameter .. 6 independent; variability: 0 constant .. 4 continuous
\* libcosim: parameter, calculated_parameter, input, output, local = 0..4
Causality(v, c, w) ==
    IF v = 1 THEN CASE c = 0 -> (IF w = 1 THEN 0 ELSE 2) [] c = 1 -> 3 [] OTHER -> 4
    ELSE IF c = 6 THEN 4 ELSE c - 1
Variability(v, w) == IF v = 1 THEN CASE w = 0 -> 0 [] w = 1 -> 1 [] w = 2 -> 3 [] w = 3 -> 4 ELSE w
Described(v, vars) ==
    LET kept == SelectSeq(vars, LAMBDA q : q.ty # 4) IN
    [i \in DOMAIN kept |-> [e |-> "v", n |-> kept[i].n, vr |-> kept[i].vr, ty |-> kept[i].ty,
                            ca |-> Causality(v, kept[i].ca, kept[i].va), va |-> Variability(v, kept[i].va),
                            st |-> IF kept[i].ty = 2 /\ kept[i].st > 0 THEN 1 ELSE kept[i].st]]
=============================================================================
