----------------------------- MODULE MCFmiSlave -----------------------------
(* Every order of operations that the slave contract allows, with every     *)
(* status at every call, for one FMI version.                                *)
(* Blind = TRUE: a slave is terminated although it is broken.                *)
EXTENDS FmiSlave, TLC
CONSTANTS V, Slaves, MaxOps, MaxX, Blind, Single
VARIABLES n, next, bad
vars == <<F, n, next, bad>>
Init == FInit /\ n = 0 /\ next = 1 /\ bad = FALSE
Statuses(f) == IF V = 3 THEN (IF f = "instantiate" THEN {0} ELSE {0, 3}) ELSE IF f \in {"xml", "create", "instantiate"} THEN {0, 3}
               ELSE IF f \in {"free", "destroy", "free_xml"} THEN {0} ELSE IF V = 2 \/ f = "do_step" THEN 0..5 ELSE 0..4
Ops == {"load", "dropfmu", "inst", "drop", "setup", "start", "end", "step", "get", "set", "getx"}
No(op) == IF op = "inst" /\ Single /\ V # 3 /\ F.s # <<>> THEN "unsupported" ELSE IF op = "getx" THEN "invalid" ELSE ""
\* what the destructor does when it does not look at what happened before
BlindPlan(h) == IF Blind /\ F.s[h].ph = "broken" THEN <<[f |-> "terminate", x |-> F.s[h].x]>> ELSE <<>>
MBegin == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<next, bad>>
          /\ \E op \in Ops, h \in Slaves, e \in BOOLEAN :
               /\ (op \in {"load", "dropfmu"}) => h = CHOOSE g \in Slaves : TRUE
               /\ e => op \in {"get", "set"}
               /\ IF op = "drop" /\ Blind
                  THEN /\ F.p = <<>> /\ h \in DOMAIN F.s
                       /\ F' = [F EXCEPT !.p = [op |-> op, h |-> h, todo |-> BlindPlan(h) \o Closing(V, h), f |-> "", x |-> 0, st |-> 0, lg |-> 0, no |-> ""]]
                  ELSE Begin(V, op, h, e, No(op))
MCall == /\ UNCHANGED n
         /\ F.p # <<>> /\ F.p.todo # <<>>
         /\ LET c == Head(F.p.todo)
                new == c.f = "xml" \/ (V = 3 /\ c.f = "instantiate")
                x == IF new THEN next ELSE IF c.x = 0 THEN F.p.x ELSE c.x IN
            /\ next <= MaxX
            /\ next' = IF new THEN next + 1 ELSE next
            /\ bad' = (bad \/ (c.f # "xml" /\ ~Legal(V, IF new THEN "xml" ELSE F.x[x], c.f)))
            /\ \E st \in Statuses(c.f) : IF bad' THEN UNCHANGED F ELSE Call(V, c.f, x, st, 0)
MEnd == /\ UNCHANGED <<n, next, bad>> /\ F.p # <<>> /\ End(V, Result(V))
Next == MBegin \/ MCall \/ MEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(MCall \/ MEnd)
\* libcosim never makes a call the standard forbids, whatever the FMU answers
Lawful == ~bad
AllAccounted == Accounted(V)
\* the user's view and the FMU's agree
Agree == F.p = <<>> => \A h \in DOMAIN F.s : LET q == F.s[h] z == F.x[q.x] IN
    CASE q.ph = "made" -> z = "inst" [] q.ph = "set" -> z = (IF V = 1 THEN "inst" ELSE "init")
      [] q.ph = "run" -> z = "run" [] q.ph = "stopped" -> z = "stopped" [] q.ph = "over" -> z = "over"
      [] q.ph = "broken" -> z \in {"err", "over", "stopped"}
Nothing == F.held = FALSE /\ F.s = <<>> /\ F.p = <<>> => F.x = <<>>
Finishes == []<>(F.p = <<>> \/ next > MaxX)
=============================================================================
