------------------------------ MODULE MCCosim -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Cosim over a set of small configurations and   *)
(* every order of API calls within the bounds.                              *)
(***************************************************************************)
EXTENDS Cosim
CONSTANTS Family,      \* which configurations
          MaxSteps,    \* bound on completed steps
          MaxOps       \* bound on operations
VARIABLE n
mvars == <<cfg, S, n>>

V(ty, ca, st, rk, rb, ro) == [ty |-> ty, ca |-> ca, st |-> st, rk |-> rk, rb |-> rb, ro |-> ro]
\* a simulator with an input, an output feeding it through and a token output
Sim(hint, fk, fn, b) ==
    [hint |-> hint, fk |-> fk, fn |-> fn,
     vars |-> << V(REAL, INPUT, b, 0, 0, 0), V(REAL, OUTPUT, 0, 2, 1, 1), V(REAL, OUTPUT, 0, 1, 10 * b, 0) >>]
Lin == [kind |-> 1, off |-> 1, fac |-> 2, n |-> 1, dim |-> 1, ty |-> REAL]
Vec == [kind |-> 2, off |-> 0, fac |-> 0, n |-> 2, dim |-> 1, ty |-> REAL]
Ob(vs) == [vars |-> vs]
Base(sims, funs, obs, mans) ==
    [base |-> 10, start |-> 0, sims |-> sims, funs |-> funs, obs |-> obs, mans |-> mans]
Configs ==
    CASE Family = "rates" -> {Base(<<Sim(h1, 0, 0, 1), Sim(h2, 0, 0, 2), Sim(h3, 0, 0, 3)>>, <<>>, <<>>, <<>>) :
                                h1 \in {0}, h2 \in {20, 35}, h3 \in {10, 20, 45}}
      [] Family = "funs"  -> {Base(<<Sim(h1, 0, 0, 1), Sim(h2, 0, 0, 2)>>, <<fn>>, <<>>, <<>>) :
                                h1 \in {0, 20}, h2 \in {0, 20, 30}, fn \in {Lin, Vec}}
      [] Family = "fail"  -> {Base(<<Sim(0, f1, n1, 1), Sim(h, f2, 2, 2)>>, <<>>, <<Ob(<<<<1, 2>>>>)>>, <<1>>) :
                                h \in {0, 20}, f1 \in {0, 1, 2, 3, 4, 6}, f2 \in {0, 1, 2, 4, 6}, n1 \in {1, 2}}
      [] Family = "obs"   -> {Base(<<Sim(0, 0, 0, 1), Sim(h, 0, 0, 2)>>, <<>>, <<Ob(<<<<1, 2>>>>), Ob(<<<<2, 3>>>>)>>, <<1, 2>>) :
                                h \in {0, 20}}
      [] Family = "mods"  -> {Base(<<Sim(0, 0, 0, 1), Sim(h, 0, 0, 2)>>, <<>>, <<>>, <<1>>) : h \in {0, 20}}

MInit == cfg \in Configs /\ S = InitS /\ n = 0
Op(a) == n < MaxOps /\ n' = n + 1 /\ a
Ev(a) == n' = n /\ a
FunRef == {<<0, 0, 0, 0>>, <<0, 1, 0, 0>>, <<1, 0, 0, 0>>}
Has(f) == Family \in f
Next ==
    \* building is deterministic: simulators then functions, observers, manipulators
    \/ Ev(Len(S.sims) < Len(cfg.sims) /\ AddSim(Len(S.sims) + 1))
    \/ Ev(Len(S.sims) = Len(cfg.sims) /\ Len(S.funs) < Len(cfg.funs) /\ AddFun(Len(S.funs) + 1))
    \/ Ev(Len(S.obs) < Len(cfg.obs) /\ (Has({"obs"}) \/ Len(S.sims) = Len(cfg.sims)) /\ AddObs(Len(S.obs) + 1))
    \/ Ev(Len(S.mans) < Len(cfg.mans) /\ (Has({"obs"}) \/ Len(S.sims) = Len(cfg.sims)) /\ AddMan(Len(S.mans) + 1))
    \/ /\ Len(S.sims) = Len(cfg.sims) /\ Len(S.funs) = Len(cfg.funs)
       /\ Has({"obs"}) \/ (Len(S.mans) = Len(cfg.mans) /\ Len(S.obs) = Len(cfg.obs))
       /\ \/ \E i, j \in DOMAIN S.sims, v \in {2, 3} :
                ~S.inited /\ Has({"rates", "funs", "fail"}) /\ i # j /\ Op(ConnectSS(i, v, j, 1, CanSS(i, v, j, 1)))
          \/ \E f \in DOMAIN S.funs, r \in FunRef, i \in DOMAIN S.sims :
                ~S.inited /\ Op(ConnectSF(i, 2, f, r, CanSF(i, 2, f, r)))
          \/ \E f \in DOMAIN S.funs, r \in FunRef, i \in DOMAIN S.sims :
                ~S.inited /\ Op(ConnectFS(f, r, i, 1, CanFS(f, r, i, 1)))
          \/ Has({"funs"}) /\ \E j \in DOMAIN S.sims : Op(DisconnectVar(j, 1))
          \/ Has({"funs"}) /\ \E r \in {<<0, 0, 0, 0>>} : Op(DisconnectFun(1, r))
          \/ Has({"funs"}) /\ \E i \in S.alive : Cardinality(S.alive) > 1 /\ Op(RemoveSim(i))
          \/ Has({"funs"}) /\ ~S.inited /\ \E i \in S.alive, k \in {1, 2} : Op(SetDecimation(i, k, TRUE))
          \/ Has({"mods"}) /\ \E i \in S.alive : \E v \in {1} : Op(InitValue(i, v, 7, ~S.inited))
          \/ Has({"mods", "obs"}) /\ \E m \in DOMAIN S.mans, i \in S.alive, v \in {1, 2}, md \in {NoMod, [k |-> 1, a |-> 5], [k |-> 2, a |-> 1]} :
                Op(Request(m, i, v, md, TRUE))
          \/ S.last < MaxSteps /\ S.alive # {} /\ Ev(StepBegin)
          \/ S.last < MaxSteps /\ S.alive # {} /\ \E t \in {S.now + 5, S.now + cfg.base, S.now + 2 * cfg.base} :
                t <= cfg.start + MaxSteps * cfg.base /\ Ev(UntilBegin(TRUE, t))
    \/ Ev(OpEnd)
    \/ Has({"fail"}) /\ (Ev(Retry) \/ \E i \in S.alive : Ev(RetryBegin(i, StepDt(i))) \/ Ev(RetryEnd(i)))
    \/ \E i \in S.alive : Ev(SetupBegin(i)) \/ Ev(SetupEnd(i)) \/ Ev(StartBegin(i)) \/ Ev(StartEnd(i))
                            \/ Ev(DoStepBegin(i)) \/ Ev(DoStepEnd(i)) \/ Ev(SetFails(i))
    \/ \E o \in 1..Len(S.obs), i \in 1..Len(S.sims) : Ev(CbObsAdded(o, i)) \/ Ev(CbObsSim(o, i))
    \/ \E o \in 1..Len(S.mans), i \in 1..Len(S.sims) : Ev(CbManAdded(o, i))
    \/ \E o \in 1..Len(S.obs) : Ev(CbObsInit(o)) \/ Ev(CbObsStep(o, FALSE)) \/ (Has({"obs"}) /\ Ev(CbObsStep(o, TRUE)))
    \/ \E o \in 1..Len(S.mans) : Ev(CbManStep(o))
    \/ Has({"obs"}) /\ Len(S.obs) < Len(cfg.obs) /\ \E o \in 1..Len(S.mans) : Ev(CbManStepAdds(o, Len(S.obs) + 1))
Spec == MInit /\ [][Next]_mvars

\* Independence of results from the order in which workers run: at a quiescent
\* point the values depend only on cfg and on the operations, i.e. on nothing the
\* scheduler chose.  Checked as confluence: between DoStepBegin/End of different
\* simulators all orders reach the same S (TLC's distinct states witness it: at
\* phase end busy = pend = {} and the state is a function of the phase start).
TypeOK == S.busy \cap S.pend = {} /\ S.busy \subseteq S.alive /\ n \in 0..MaxOps
=============================================================================
