------------------------------- MODULE FileLog -----------------------------
(***************************************************************************)
(* file_observer: one log per simulator and recording session.               *)
(*   cfg.sims[i] = [name, vars: sequence of [name, ty, ca, ref]]              *)
(*   cfg.mode    = "default" (no configuration: everything but locals),        *)
(*                 "config" (cfg.conf: simulator name -> [dec, vars: names])   *)
(*   cfg.stamped = whether each session has its own file                       *)
(* A file is a sequence of entries: <<"h", names...>> (header) or              *)
(* <<"r", time, step, values...>>.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, F
fvars == <<cfg, F>>
\* F: rec |-> recording?; w |-> present writers: i -> [files |-> sequence of files, open |-> last file in use?]
\*    cur |-> i -> current values
InitF == F = [rec |-> TRUE, w |-> <<>>, cur |-> [i \in DOMAIN cfg.sims |-> [v \in DOMAIN cfg.sims[i].vars |-> 0]]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Configured(i) == \E k \in DOMAIN cfg.conf : cfg.conf[k].name = cfg.sims[i].name
Conf(i) == cfg.conf[CHOOSE k \in DOMAIN cfg.conf : cfg.conf[k].name = cfg.sims[i].name]
VarsOf(i) == cfg.sims[i].vars
Selected(i) ==   \* indices of the variables to log, in the order configured
    IF cfg.mode = "default" THEN SelectSeq([v \in DOMAIN VarsOf(i) |-> v], LAMBDA v : VarsOf(i)[v].ca # 5)
    ELSE IF Conf(i).vars = <<>> THEN [v \in DOMAIN VarsOf(i) |-> v]
    ELSE [k \in DOMAIN Conf(i).vars |-> CHOOSE v \in DOMAIN VarsOf(i) : VarsOf(i)[v].name = Conf(i).vars[k]]
\* grouped by type: real, integer, boolean, string
Columns(i) ==
    LET s == Selected(i) IN
    SelectSeq(s, LAMBDA v : VarsOf(i)[v].ty = 1) \o SelectSeq(s, LAMBDA v : VarsOf(i)[v].ty = 2)
    \o SelectSeq(s, LAMBDA v : VarsOf(i)[v].ty = 3) \o SelectSeq(s, LAMBDA v : VarsOf(i)[v].ty = 4)
Dec(i) == IF cfg.mode = "default" THEN 1 ELSE Conf(i).dec
Header(i) == <<"h">> \o [k \in DOMAIN Columns(i) |-> VarsOf(i)[Columns(i)[k]].name]
Row(i, s, t) == <<"r", t, s>> \o [k \in DOMAIN Columns(i) |-> F.cur[i][Columns(i)[k]]]
\* a configuration naming an unknown variable is refused
CanAdd(i) == cfg.mode = "default" \/ ~Configured(i)
             \/ \A k \in DOMAIN Conf(i).vars : \E v \in DOMAIN VarsOf(i) : VarsOf(i)[v].name = Conf(i).vars[k]
Logged(i) == cfg.mode = "default" \/ Configured(i)

Add(i, ok) ==
    /\ i \notin DOMAIN F.w
    /\ ok = CanAdd(i)
    /\ F' = IF ok /\ Logged(i) THEN [F EXCEPT !.w = Put(@, i, [files |-> <<>>, open |-> FALSE])] ELSE F
    /\ UNCHANGED cfg
Remove(i) ==
    /\ F' = [F EXCEPT !.w = Del(@, i)]
    /\ UNCHANGED cfg
Change(i, v, x) ==
    /\ F' = [F EXCEPT !.cur[i][v] = x]
    /\ UNCHANGED cfg
\* Writing goes to the open file; opening makes a new file if stamped, otherwise continues the only one.
Opened(i, w) ==
    IF w.open THEN w
    ELSE [open |-> TRUE,
          files |-> IF cfg.stamped \/ w.files = <<>> THEN Append(w.files, <<Header(i)>>)
                    ELSE [w.files EXCEPT ![Len(w.files)] = Append(@, Header(i))]]
Observe(i, w, s, t) ==
    LET o == Opened(i, w) IN
    IF s % Dec(i) = 0 THEN [o EXCEPT !.files[Len(o.files)] = Append(@, Row(i, s, t))] ELSE o
\* recording sessions in which anything was to be written: each describes its variables anew
Sessions(i) == LET f == F.w[i].files
                   n[k \in 0..Len(f)] == IF k = 0 THEN 0 ELSE n[k - 1] + Len(SelectSeq(f[k], LAMBDA e : e[1] = "h"))
               IN n[Len(f)]
Initialized(s, t) ==
    /\ F' = IF F.rec THEN [F EXCEPT !.w = [i \in DOMAIN F.w |-> Observe(i, F.w[i], s, t)]] ELSE F
    /\ UNCHANGED cfg
StepDone(i, s, t) ==
    /\ F' = IF F.rec /\ i \in DOMAIN F.w THEN [F EXCEPT !.w[i] = Observe(i, @, s, t)] ELSE F
    /\ UNCHANGED cfg
Start(ok) ==
    /\ ok = ~F.rec
    /\ F' = [F EXCEPT !.rec = TRUE]
    /\ UNCHANGED cfg
Stop(ok) ==
    /\ ok = F.rec
    /\ F' = IF F.rec THEN [F EXCEPT !.rec = FALSE, !.w = [i \in DOMAIN F.w |-> [F.w[i] EXCEPT !.open = FALSE]]] ELSE F
    /\ UNCHANGED cfg
=============================================================================
