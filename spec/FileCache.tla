------------------------------ MODULE FileCache ------------------------------
(***************************************************************************)
(* persistent_file_cache as threads of several processes see it, from the   *)
(* beginnings and ends of their calls alone.  What has been granted and not *)
(* begun to be released is certainly in use; a clean-up may delete, at any  *)
(* time while it runs, what is not in use, and has deleted when it ends     *)
(* what nobody has used or asked for since it began.                        *)
(*   P.use    handle -> [k, m, p]: granted, release not begun               *)
(*   P.off    handle -> [k, m, p]: release begun, not ended                 *)
(*   P.ask    thread -> [k, m, p]: requests not ended                       *)
(*   P.sure   keys that certainly exist;  P.may: keys that may exist        *)
(*   P.vals   key -> values that may be stored under it (0: none)           *)
(*   P.clean  clean-ups that run: thread -> keys nobody touched since       *)
(*   P.miss   threads asking for read-only access to a key that may have    *)
(*            been missing at some time since they asked                    *)
(*   P.ends   processes being killed;  P.path: key -> where its data are    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Keys, ProcOf
VARIABLE P
InitP == P = [use |-> <<>>, off |-> <<>>, ask |-> <<>>, sure |-> {}, may |-> {}, vals |-> [k \in Keys |-> {0}],
              clean |-> <<>>, miss |-> {}, ends |-> {}, path |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
InUse(p, k) == \E h \in DOMAIN p.use : p.use[h].k = k
Touched(p, k) == InUse(p, k) \/ (\E h \in DOMAIN p.off : p.off[h].k = k) \/ (\E t \in DOMAIN p.ask : p.ask[t].k = k)
Clash(m, n) == m = "rw" \/ n = "rw"

(* After every event: what running clean-ups may have done by now, and what *)
(* they can no longer be held to.                                           *)
Norm(p) ==
    LET gone == {k \in Keys : DOMAIN p.clean # {} /\ ~InUse(p, k)} sure == p.sure \ gone IN
    [p EXCEPT !.sure = sure,
              !.vals = [k \in Keys |-> IF k \in gone THEN @[k] \cup {0} ELSE @[k]],
              !.clean = [c \in DOMAIN @ |-> {k \in @[c] : ~Touched(p, k)}],
              !.miss = @ \cup {t \in DOMAIN p.ask : p.ask[t].m = "ro" /\ p.ask[t].k \notin sure}]

Ask(t, k, m) == /\ t \notin DOMAIN P.ask
                /\ P' = Norm([P EXCEPT !.ask = Put(@, t, [k |-> k, m |-> m, p |-> ProcOf[t]]), !.miss = @ \ {t},
                                       !.may = IF m = "rw" THEN @ \cup {k} ELSE @])
(* A handle is granted that goes with all those certainly in use. *)
Grant(t, h, path) ==
    /\ t \in DOMAIN P.ask
    /\ LET r == P.ask[t] q == [P EXCEPT !.ask = Del(@, t), !.path = Put(@, r.k, path)] IN
       /\ r.k \in DOMAIN P.path => P.path[r.k] = path
       /\ \A k \in DOMAIN P.path \ {r.k} : P.path[k] # path
       /\ IF r.p \in P.ends THEN P' = Norm([q EXCEPT !.off = Put(@, h, r)])
          ELSE /\ \A g \in DOMAIN P.use : P.use[g].k = r.k => ~Clash(r.m, P.use[g].m)
               /\ r.m = "ro" => r.k \in P.may
               /\ P' = Norm([q EXCEPT !.use = Put(@, h, r), !.sure = @ \cup {r.k}])
(* Only read-only access to a key that may be missing is refused. *)
Refuse(t) == /\ t \in DOMAIN P.ask /\ P.ask[t].m = "ro" /\ t \in P.miss
             /\ P' = Norm([P EXCEPT !.ask = Del(@, t)])
ReleaseBegin(h) == \/ /\ h \in DOMAIN P.use
                      /\ P' = Norm([P EXCEPT !.use = Del(@, h), !.off = Put(@, h, P.use[h])])
                   \/ h \in DOMAIN P.off /\ P.off[h].p \in P.ends /\ UNCHANGED P
ReleaseEnd(h) == h \in DOMAIN P.off /\ P' = Norm([P EXCEPT !.off = Del(@, h)])
Ending(h) == h \in DOMAIN P.off /\ P.off[h].p \in P.ends
\* writing: while it lasts, and if it is cut off, either value or none may be there
WriteBegin(h, v) == IF Ending(h) THEN P' = [P EXCEPT !.vals[P.off[h].k] = @ \cup {v, 0}]
                    ELSE /\ h \in DOMAIN P.use /\ P.use[h].m = "rw"
                         /\ P' = [P EXCEPT !.vals[P.use[h].k] = @ \cup {v, 0}]
WriteEnd(h, v) == IF Ending(h) THEN UNCHANGED P
                  ELSE h \in DOMAIN P.use /\ P' = [P EXCEPT !.vals[P.use[h].k] = {v}]
Read(h, v, exists) == IF Ending(h) THEN UNCHANGED P
                      ELSE /\ h \in DOMAIN P.use /\ v \in P.vals[P.use[h].k] /\ exists
                           /\ P' = [P EXCEPT !.vals[P.use[h].k] = {v}]
CleanBegin(c) == c \notin DOMAIN P.clean /\ P' = Norm([P EXCEPT !.clean = Put(@, c, Keys)])
CleanEnd(c) ==
    /\ c \in DOMAIN P.clean
    /\ LET gone == P.clean[c] IN
       P' = Norm([P EXCEPT !.clean = Del(@, c), !.sure = @ \ gone, !.may = @ \ gone,
                           !.vals = [k \in Keys |-> IF k \in gone THEN {0} ELSE @[k]]])
(* The directories found when nothing runs. *)
Calm == P.ask = <<>> /\ P.clean = <<>> /\ P.off = <<>>
Found(D) == /\ Calm
            /\ \A k \in DOMAIN P.path : (k \in P.sure => P.path[k] \in D) /\ (P.path[k] \in D => k \in P.may)
            /\ LET S == {k \in DOMAIN P.path : P.path[k] \in D} \cup (P.may \ DOMAIN P.path) IN
               P' = [P EXCEPT !.sure = @ \cup (S \cap DOMAIN P.path), !.may = S,
                              !.vals = [k \in Keys |-> IF k \in S THEN @[k] ELSE {0}]]
(* Nobody is kept waiting but by holders of the same key. *)
Stuck == /\ P.clean = <<>> /\ P.off = <<>>
         /\ \A t \in DOMAIN P.ask : \E g \in DOMAIN P.use : P.use[g].k = P.ask[t].k /\ Clash(P.ask[t].m, P.use[g].m)
(* A process is killed: its handles are released. *)
KillBegin(p) == P' = Norm([P EXCEPT !.ends = @ \cup {p}, !.use = [h \in {g \in DOMAIN @ : @[g].p # p} |-> @[h]],
                                    !.off = [h \in DOMAIN @ \cup {g \in DOMAIN P.use : P.use[g].p = p} |-> IF h \in DOMAIN @ THEN @[h] ELSE P.use[h]]])
KillEnd(p) == LET q == Norm(P) IN
              P' = Norm([q EXCEPT !.off = [h \in {g \in DOMAIN @ : @[g].p # p} |-> @[h]],
                                  !.ask = [t \in {u \in DOMAIN @ : @[u].p # p} |-> @[t]],
                                  !.clean = [t \in {u \in DOMAIN @ : ProcOf[u] # p} |-> @[t]]])
=============================================================================
