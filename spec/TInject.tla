------------------------------ MODULE TInject ------------------------------
(* Runs of systems described by a system_structure and injected: from the   *)
(* injection on they must be runs of the same system built by hand.         *)
EXTENDS TCosim
Perm(q, n) == Len(q) = n /\ SetOf(q) = 1..n
(* simulators and functions are renumbered as the injection reported *)
Inject ==
    /\ Line.e = "inject" /\ Line.ok = 1
    /\ Line.nsim = Len(cfg.sims) /\ Line.nfun = Len(cfg.funs)
    /\ Perm(Line.sims, Len(cfg.sims)) /\ Perm(Line.funs, Len(cfg.funs))
    /\ LET new(i) == CHOOSE k \in DOMAIN Line.sims : Line.sims[k] = i IN
       cfg' = [cfg EXCEPT !.sims = [k \in DOMAIN @ |-> @[Line.sims[k]]],
                          !.funs = [k \in DOMAIN @ |-> @[Line.funs[k]]],
                          !.obs = [o \in DOMAIN @ |-> [@[o] EXCEPT !.vars = [v \in DOMAIN @ |-> <<new(@[v][1]), @[v][2]>>]]]]
    /\ UNCHANGED S
TNextI == (l <= Len(Ev) /\ Inject /\ l' = l + 1 /\ UNCHANGED tid) \/ TNext
TSpecI == TInit /\ [][TNextI]_tvars
=============================================================================
