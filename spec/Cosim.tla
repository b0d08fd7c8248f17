------------------------------- MODULE Cosim -------------------------------
(***************************************************************************)
(* Operational model of one co-simulation: cosim::execution driving         *)
(* cosim::fixed_step_algorithm, which drives cosim::slave_simulator objects *)
(* (set/get caches and modifiers) on a thread pool, transfers variables     *)
(* between simulators directly and through functions, and notifies          *)
(* observers and manipulators.                                              *)
(*                                                                          *)
(* Grain: one action per call that can be seen from outside - an API call   *)
(* beginning or ending, a slave call (setup / start / step) beginning or    *)
(* ending, one observer or manipulator callback.  Everything that happens   *)
(* between two such events on the stepping thread is folded into the action *)
(* by Advance.                                                              *)
(*                                                                          *)
(* `cfg` describes the environment (the slaves' variables and behaviour,    *)
(* observers, functions available); `S` is the state of the co-simulation.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cfg, S
cvars == <<cfg, S>>

-----------------------------------------------------------------------------
(* Small helpers *)
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a * b) \div Gcd(a, b)
RECURSIVE LcmSet(_)
LcmSet(M) == IF M = {} THEN 1 ELSE LET x == CHOOSE x \in M : TRUE IN Lcm(x, LcmSet(M \ {x}))
RECURSIVE FoldS(_, _, _)
FoldS(Op(_, _), acc, M) ==
    IF M = {} THEN acc ELSE LET x == CHOOSE x \in M : TRUE IN FoldS(Op, Op(acc, x), M \ {x})
Const(n, x) == [v \in 1..n |-> x]

(* Types and causalities as encoded in configurations and traces. *)
REAL == 1  INT == 2  BOOL == 3  STR == 4
INPUT == 1  OUTPUT == 2  PARAM == 3  CPARAM == 4  LOC == 5

(* Modifiers: 0 none, 1 constant a, 2 add a, 3 add a*dt, 4 boolean negation *)
NoMod == [k |-> 0, a |-> 0]
ApplyMod(m, x, dt) ==
    CASE m.k = 0 -> x
      [] m.k = 1 -> m.a
      [] m.k = 2 -> x + m.a
      [] m.k = 3 -> x + m.a * dt
      [] m.k = 4 -> 1 - x

-----------------------------------------------------------------------------
(* One simulator: the slave's own variables plus the two caches in front.   *)

(* the variables observer o exposes and reads: a sequence of <<sim, var>> *)
ObsVars(o) == {cfg.obs[o].vars[k] : k \in DOMAIN cfg.obs[o].vars}
NV(i) == Len(cfg.sims[i].vars)
Var(i, v) == cfg.sims[i].vars[v]

NewSim(i) ==
    LET n == NV(i) IN
    [ ph  |-> "created",
      n   |-> 0,                                    \* completed steps
      end |-> 0,                                    \* end of last completed interval
      sv  |-> [v \in 1..n |-> Var(i, v).st],        \* values inside the slave
      gx  |-> {}, gm |-> Const(n, 0), go |-> Const(n, 0), gmod |-> Const(n, NoMod),
      sx  |-> {}, sl |-> Const(n, 0), sp |-> {}, smod |-> Const(n, NoMod),
      mset |-> {} ]

(* What the slave reports for variable v. rule kinds: 0 plain variable,
   1 token (rb + number of completed steps), 2 feed-through of variable rb plus ro *)
SlaveOut(i, s, v) ==
    LET d == Var(i, v)
        x == CASE d.rk = 1 -> d.rb + s.n
               [] d.rk = 2 -> s.sv[d.rb] + d.ro
               [] OTHER    -> s.sv[v]
    IN IF d.ty = BOOL THEN x % 2 ELSE x

ExposeGet(s, v) == [s EXCEPT !.gx = @ \cup {v}]
ExposeSet(i, s, v) ==
    IF v \in s.sx THEN s
    ELSE [s EXCEPT !.sx = @ \cup {v}, !.sl[v] = Var(i, v).st]
SetVal(s, v, x) == [s EXCEPT !.sl[v] = x, !.sp = @ \cup {v}]
MarkMod(s, v, m) == [s EXCEPT !.mset = IF m.k # 0 THEN @ \cup {v} ELSE @ \ {v}]
SetInMod(s, v, m)  == MarkMod([s EXCEPT !.smod[v] = m, !.sp = @ \cup {v}], v, m)
SetOutMod(s, v, m) == MarkMod([s EXCEPT !.gmod[v] = m], v, m)

(* slave_simulator::set_variables: flush pending values, modifiers applied *)
FlushSet(s, dt) ==
    LET p == s.sp \cup {v \in s.sx : s.smod[v].k # 0} IN
    [s EXCEPT !.sv = [v \in DOMAIN s.sv |->
                        IF v \in p THEN ApplyMod(s.smod[v], s.sl[v], dt) ELSE s.sv[v]],
              !.sp = {}]
(* slave_simulator::get_variables: refresh exposed values, modifiers applied *)
Refresh(i, s, dt) ==
    LET o == [v \in DOMAIN s.go |-> IF v \in s.gx THEN SlaveOut(i, s, v) ELSE s.go[v]] IN
    [s EXCEPT !.go = o,
              !.gm = [v \in DOMAIN s.gm |->
                        IF v \in s.gx THEN ApplyMod(s.gmod[v], o[v], dt) ELSE s.gm[v]]]

-----------------------------------------------------------------------------
(* Functions: kind 1 linear transformation, kind 2 vector sum.              *)
(* Inputs/outputs are addressed by <<group, groupInst, io, ioInst>>.        *)
FunNIn(f)  == IF cfg.funs[f].kind = 1 THEN 1 ELSE cfg.funs[f].n * cfg.funs[f].dim
FunNOut(f) == IF cfg.funs[f].kind = 1 THEN 1 ELSE cfg.funs[f].dim
NewFun(f) == [in |-> Const(FunNIn(f), 0), out |-> Const(FunNOut(f), 0)]
FunType(f) == IF cfg.funs[f].kind = 1 THEN REAL ELSE cfg.funs[f].ty
FunIoValid(f, r, dir, ty) ==
    LET c == cfg.funs[f] IN
    /\ r[1] = (IF dir = INPUT THEN 0 ELSE 1)
    /\ r[3] = 0
    /\ r[2] >= 0 /\ r[4] >= 0
    /\ IF c.kind = 1 THEN r[2] = 0 /\ r[4] = 0
       ELSE r[4] < c.dim /\ r[2] < (IF dir = INPUT THEN c.n ELSE 1)
    /\ ty = FunType(f)
FunInIdx(f, r)  == IF cfg.funs[f].kind = 1 THEN 1 ELSE r[2] * cfg.funs[f].dim + r[4] + 1
FunOutIdx(f, r) == IF cfg.funs[f].kind = 1 THEN 1 ELSE r[4] + 1
RECURSIVE SumComp(_, _, _, _)
SumComp(in, dim, d, k) == IF k = 0 THEN 0 ELSE in[(k - 1) * dim + d] + SumComp(in, dim, d, k - 1)
Calc(f, x) ==
    LET c == cfg.funs[f] IN
    IF c.kind = 1 THEN [x EXCEPT !.out = <<c.off + c.fac * x.in[1]>>]
    ELSE [x EXCEPT !.out = [d \in 1..c.dim |-> SumComp(x.in, c.dim, d, c.n)]]

-----------------------------------------------------------------------------
(* Co-simulation state *)
InitS == [ ph |-> "idle", q |-> <<>>, pend |-> {}, busy |-> {}, failed |-> {}, broken |-> FALSE,
           mode |-> "", tgt |-> 0, hastgt |-> FALSE, stop |-> FALSE, done |-> 0,
           now |-> cfg.start, last |-> 0, cnt |-> 0, inited |-> FALSE,
           sims |-> <<>>, df |-> <<>>, alive |-> {},
           funs |-> <<>>,
           ss |-> {}, sf |-> {}, fs |-> {},        \* connections in the algorithm
           est |-> {}, esf |-> {},                 \* inputs the execution considers connected
           obs |-> <<>>, mans |-> <<>>,            \* indices into cfg.obs / cfg.mans
           mq |-> <<>> ]                           \* per manipulator: queued requests

Decimation(hint) == IF hint = 0 THEN 1 ELSE Max(1, hint \div cfg.base)
Due(s, i) == s.cnt % s.df[i] = 0
FunDf(s, f) == LcmSet({s.df[c.t] : c \in {c \in s.fs : c.f = f}})

(* Transfer everything due at the present step counter, then functions. *)
TransferSS(s) ==
    LET D == {c \in s.ss : s.cnt % Lcm(s.df[c.s], s.df[c.t]) = 0}
        Op(acc, c) == [acc EXCEPT !.sims[c.t] = SetVal(@, c.w, s.sims[c.s].gm[c.v])]
    IN FoldS(Op, s, D)
TransferSF(s) ==
    LET D == {c \in s.sf : s.cnt % Lcm(s.df[c.s], FunDf(s, c.f)) = 0}
        Op(acc, c) == [acc EXCEPT !.funs[c.f].in[FunInIdx(c.f, c.r)] = s.sims[c.s].gm[c.v]]
    IN FoldS(Op, s, D)
CalcAll(s) ==
    [s EXCEPT !.funs = [f \in DOMAIN s.funs |->
        IF s.cnt % FunDf(s, f) = 0 THEN Calc(f, s.funs[f]) ELSE s.funs[f]]]
TransferFS(s) ==
    LET D == {c \in s.fs : s.cnt % Lcm(FunDf(s, c.f), s.df[c.t]) = 0}
        Op(acc, c) == [acc EXCEPT !.sims[c.t] = SetVal(@, c.w, s.funs[c.f].out[FunOutIdx(c.f, c.r)])]
    IN FoldS(Op, s, D)
Transfer(s) == TransferFS(CalcAll(TransferSF(TransferSS(s))))

(* Initialisation: iterate set/get on all simulators and transfer, as many
   times as there are simulators and functions. *)
IterateOnce(s) ==
    Transfer([s EXCEPT !.sims = [i \in DOMAIN s.sims |->
        IF i \in s.alive THEN Refresh(i, FlushSet(s.sims[i], 0), 0) ELSE s.sims[i]]])
RECURSIVE IterateN(_, _)
IterateN(s, k) == IF k = 0 THEN s ELSE IterateN(IterateOnce(s), k - 1)

(* Modification requests queued with the manipulators are applied when the
   next step commences, in manipulator order, oldest first. *)
ApplyReq(s, r) ==
    LET x == s.sims[r.s]
        inp == Var(r.s, r.v).ca \in {INPUT, PARAM}
    IN [s EXCEPT !.sims[r.s] =
          IF inp THEN SetInMod(ExposeSet(r.s, x, r.v), r.v, r.m)
          ELSE SetOutMod(ExposeGet(x, r.v), r.v, r.m)]
RECURSIVE ApplySeq(_, _)
ApplySeq(s, rs) == IF rs = <<>> THEN s ELSE ApplySeq(ApplyReq(s, Head(rs)), Tail(rs))
RECURSIVE ApplyMans(_, _)
ApplyMans(s, m) ==
    IF m > Len(s.mans) THEN s
    ELSE ApplyMans([ApplySeq(s, s.mq[m]) EXCEPT !.mq[m] = <<>>], m + 1)

(* Callback queues.  Manipulators of kind 2 (override_manipulator) are the
   library's own and silent; kind 1 are ours and report each callback. *)
OInit(s) == [o \in DOMAIN s.obs |-> [k |-> "oinit", o |-> o, is |-> {}]]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
OStep(s) ==
    LET fin == {i \in s.alive : Due(s, i)} IN
    Concat([o \in DOMAIN s.obs |->
        (IF fin = {} THEN <<>> ELSE << [k |-> "osim", o |-> o, is |-> fin] >>)
        \o << [k |-> "ostep", o |-> o, is |-> {}] >>])
ManQ(s, k) ==
    Concat([m \in DOMAIN s.mans |->
        IF cfg.mans[s.mans[m]] = 1 THEN << [k |-> k, o |-> m, is |-> {}] >> ELSE <<>>])
TimedOut(s) == s.hastgt /\ 100 * (s.tgt - s.now) < cfg.base

(* Run on until the next externally visible event is awaited. *)
RECURSIVE Advance(_)
Commence(s) ==
    LET s1 == ApplyMans(s, 1) IN Advance([s1 EXCEPT !.ph = "man", !.q = ManQ(s1, "mstep")])
Fail(s) == [s EXCEPT !.ph = "end", !.broken = TRUE]
Advance(s) ==
    IF s.q # <<>> \/ s.pend # {} \/ s.busy # {} THEN s
    ELSE CASE s.ph = "setup" ->
                IF s.failed # {} THEN Fail(s)
                ELSE Advance([IterateN(s, Cardinality(s.alive) + Len(s.funs))
                                EXCEPT !.ph = "start", !.pend = s.alive])
           [] s.ph = "start" ->
                IF s.failed # {} THEN Fail(s)
                ELSE LET t == Transfer(s) IN
                     Advance([t EXCEPT !.inited = TRUE, !.ph = "obsinit", !.q = OInit(s)])
           [] s.ph = "obsinit" -> Commence(s)
           [] s.ph = "man" ->
                Advance([s EXCEPT !.ph = "step", !.pend = {i \in s.alive : Due(s, i)}])
           [] s.ph = "step" ->
                LET s1 == [s EXCEPT !.cnt = @ + 1] IN
                IF s.failed # {} THEN Fail(s1)
                ELSE LET t == Transfer(s1) IN
                     Advance([t EXCEPT !.now = @ + cfg.base, !.last = @ + 1, !.done = @ + 1,
                                       !.ph = "obs", !.q = OStep(t)])
           [] s.ph = "obs" ->
                IF s.mode = "until" /\ ~s.stop /\ ~TimedOut(s) THEN Commence(s)
                ELSE [s EXCEPT !.ph = "end"]
           [] s.ph = "adding" -> [s EXCEPT !.ph = "end"]
           [] OTHER -> s

-----------------------------------------------------------------------------
(* API calls.  Each is a Begin action; calls that trigger no callbacks are
   one atomic action. *)
Idle == S.ph = "idle" /\ ~S.broken

(* add_slave / add_function / add_observer / add_manipulator *)
AddSim(i) ==
    /\ Idle /\ ~S.inited /\ i = Len(S.sims) + 1
    /\ LET s1 == [S EXCEPT !.sims = Append(@, NewSim(i)),
                           !.df = Append(@, Decimation(cfg.sims[i].hint)),
                           !.alive = @ \cup {i},
                           !.ph = "adding", !.mode = "add"]
           \* observers expose what they want to read when told of the simulator
           want == {v \in 1..NV(i) : \E o \in DOMAIN s1.obs : <<i, v>> \in ObsVars(s1.obs[o])}
           qo == [o \in DOMAIN s1.obs |-> [k |-> "oadd", o |-> o, is |-> {i}]]
           qm == [x \in DOMAIN ManQ(s1, "madd") |-> [ManQ(s1, "madd")[x] EXCEPT !.is = {i}]]
       IN S' = Advance([s1 EXCEPT !.sims[i].gx = want, !.q = qo \o qm])
    /\ UNCHANGED cfg
AddFun(f) ==
    /\ Idle /\ ~S.inited /\ f = Len(S.funs) + 1
    /\ S' = [S EXCEPT !.funs = Append(@, NewFun(f))]
    /\ UNCHANGED cfg
SimQ(s, k, o) == [i \in DOMAIN s.sims |-> [k |-> k, o |-> o, is |-> {i}]]
WithObs(s, o) ==
    [s EXCEPT !.obs = Append(@, o),
              !.sims = [i \in DOMAIN s.sims |->
                  [s.sims[i] EXCEPT !.gx = @ \cup {v \in 1..NV(i) : <<i, v>> \in ObsVars(o)}]]]
AddObs(o) ==
    /\ Idle
    /\ LET n == Len(S.obs) + 1
           s1 == [WithObs(S, o) EXCEPT !.ph = "adding", !.mode = "add"]
       IN S' = Advance([s1 EXCEPT !.q = SimQ(s1, "oadd", n) \o
                 (IF S.inited THEN << [k |-> "oinit", o |-> n, is |-> {}] >> ELSE <<>>)])
    /\ UNCHANGED cfg
AddMan(m) ==
    /\ Idle
    /\ LET n == Len(S.mans) + 1
           s1 == [S EXCEPT !.mans = Append(@, m), !.mq = Append(@, <<>>), !.ph = "adding", !.mode = "add"]
       IN S' = Advance([s1 EXCEPT !.q = IF cfg.mans[m] = 1 THEN SimQ(s1, "madd", n) ELSE <<>>])
    /\ UNCHANGED cfg

(* connect_variables: `ok` tells whether the call was accepted. *)
SimVarIs(i, v, ca) == i \in 1..Len(S.sims) /\ v \in 1..NV(i) /\ Var(i, v).ca = ca
SimVarIsSource(i, v) == SimVarIs(i, v, OUTPUT) \/ SimVarIs(i, v, CPARAM)
CanSS(i, v, j, w) ==
    /\ SimVarIsSource(i, v) /\ SimVarIs(j, w, INPUT) /\ Var(i, v).ty = Var(j, w).ty
    /\ i \in S.alive /\ j \in S.alive /\ <<j, w>> \notin S.est
ConnectSS(i, v, j, w, ok) ==
    /\ Idle /\ ok = CanSS(i, v, j, w)
    /\ S' = IF ~ok THEN S
            ELSE [S EXCEPT !.est = @ \cup {<<j, w>>},
                    !.ss = @ \cup {[s |-> i, v |-> v, t |-> j, w |-> w]},
                    !.sims = [k \in DOMAIN S.sims |->
                       LET a == IF k = i THEN ExposeGet(S.sims[k], v) ELSE S.sims[k]
                       IN IF k = j THEN ExposeSet(j, a, w) ELSE a]]
    /\ UNCHANGED cfg
CanSF(i, v, f, r) ==
    /\ SimVarIsSource(i, v) /\ f \in 1..Len(S.funs) /\ FunIoValid(f, r, INPUT, Var(i, v).ty)
    /\ i \in S.alive /\ <<f, r>> \notin S.esf
ConnectSF(i, v, f, r, ok) ==
    /\ Idle /\ ok = CanSF(i, v, f, r)
    /\ S' = IF ~ok THEN S
            ELSE [S EXCEPT !.esf = @ \cup {<<f, r>>},
                    !.sf = @ \cup {[s |-> i, v |-> v, f |-> f, r |-> r]},
                    !.sims[i] = ExposeGet(@, v)]
    /\ UNCHANGED cfg
CanFS(f, r, j, w) ==
    /\ f \in 1..Len(S.funs) /\ SimVarIs(j, w, INPUT) /\ FunIoValid(f, r, OUTPUT, Var(j, w).ty)
    /\ j \in S.alive /\ <<j, w>> \notin S.est
ConnectFS(f, r, j, w, ok) ==
    /\ Idle /\ ok = CanFS(f, r, j, w)
    /\ S' = IF ~ok THEN S
            ELSE [S EXCEPT !.est = @ \cup {<<j, w>>},
                    !.fs = @ \cup {[f |-> f, r |-> r, t |-> j, w |-> w]},
                    !.sims[j] = ExposeSet(j, @, w)]
    /\ UNCHANGED cfg

(* Algorithm-level reconfiguration. *)
DisconnectVar(j, w) ==
    /\ Idle
    /\ S' = [S EXCEPT
               !.ss = {c \in @ : ~(c.t = j /\ c.w = w)}, !.fs = {c \in @ : ~(c.t = j /\ c.w = w)}]
    /\ UNCHANGED cfg
DisconnectFun(f, r) ==
    /\ Idle
    /\ S' = [S EXCEPT !.sf = {c \in @ : ~(c.f = f /\ c.r = r)}]
    /\ UNCHANGED cfg
RemoveSim(i) ==
    /\ Idle /\ i \in S.alive
    /\ S' = [S EXCEPT !.alive = @ \ {i},
               !.ss = {c \in @ : c.t # i /\ c.s # i}, !.fs = {c \in @ : c.t # i},
               !.sf = {c \in @ : c.s # i}]
    /\ UNCHANGED cfg
SetDecimation(i, k, ok) ==
    /\ Idle /\ ok = (i \in S.alive /\ k > 0)
    /\ S' = IF ok THEN [S EXCEPT !.df[i] = k]
            ELSE S
    /\ UNCHANGED cfg

(* Initial values: only before initialization, only existing variables of
   the right type (any causality). *)
InitValue(i, v, x, ok) ==
    /\ Idle /\ ok = (~S.inited /\ i \in 1..Len(S.sims) /\ v \in 1..NV(i))
    /\ S' = IF ok THEN [S EXCEPT
                          !.sims[i] = SetVal(ExposeSet(i, @, v), v, x)]
            ELSE S
    /\ UNCHANGED cfg

(* A request handed to manipulator m. The override manipulator (kind 2)
   refuses unknown variables and causalities it cannot modify. *)
Request(m, i, v, md, ok) ==
    /\ Idle
    /\ ok = (i \in 1..Len(S.sims) /\ v \in 1..NV(i) /\ Var(i, v).ca \in {INPUT, PARAM, OUTPUT, CPARAM})
    /\ S' = IF ok THEN [S EXCEPT
                          !.mq[m] = Append(@, [s |-> i, v |-> v, m |-> md])]
            ELSE S
    /\ UNCHANGED cfg

(* step() and simulate_until() *)
Enter(s) == IF s.inited THEN Commence(s)
            ELSE Advance([s EXCEPT !.ph = "setup", !.pend = s.alive])
StepBegin ==
    /\ Idle /\ S' = Enter([S EXCEPT !.mode = "step", !.done = 0]) /\ UNCHANGED cfg
UntilBegin(has, t) ==
    /\ Idle
    /\ S' = Enter([S EXCEPT !.mode = "until", !.hastgt = has, !.tgt = t, !.stop = FALSE, !.done = 0])
    /\ UNCHANGED cfg
OpEnd == S.ph = "end" /\ S' = [S EXCEPT !.ph = "idle"] /\ UNCHANGED cfg

(* After a step that some slaves did not complete, while none threw, the user
   may try once more.  What happens then is left open, but the slaves that are
   stepped have not received any value that the failed step would have
   transferred: only what was pending before it. *)
Retry ==
    /\ S.ph = "idle" /\ S.broken /\ S.inited /\ \A i \in DOMAIN S.sims : S.sims[i].ph # "error"
    /\ S' = [ApplyMans(S, 1) EXCEPT !.ph = "retry", !.pend = S.alive]
    /\ UNCHANGED cfg
RetryBegin(i, dt) ==
    /\ S.ph = "retry" /\ i \in S.pend
    /\ S' = [S EXCEPT !.pend = @ \ {i}, !.busy = @ \cup {i}, !.sims[i] = FlushSet(@, dt)]
    /\ UNCHANGED cfg
RetryEnd(i) ==
    /\ S.ph = "retry" /\ i \in S.busy
    /\ S' = [S EXCEPT !.busy = @ \ {i}]
    /\ UNCHANGED cfg

-----------------------------------------------------------------------------
(* Slave calls (on pool threads) *)
SetupBegin(i) ==
    /\ S.ph = "setup" /\ i \in S.pend /\ S.sims[i].ph = "created"
    /\ S' = [S EXCEPT !.pend = @ \ {i}, !.busy = @ \cup {i}]
    /\ UNCHANGED cfg
SetupEnd(i) ==
    /\ S.ph = "setup" /\ i \in S.busy
    /\ LET bad == cfg.sims[i].fk = 3
           s1 == [S EXCEPT !.busy = @ \ {i}, !.failed = IF bad THEN @ \cup {i} ELSE @,
                    !.sims[i] = IF bad THEN [@ EXCEPT !.ph = "error"]
                                ELSE Refresh(i, [@ EXCEPT !.ph = "init", !.end = S.now], 0)]
       IN S' = Advance(s1)
    /\ UNCHANGED cfg
StartBegin(i) ==
    /\ S.ph = "start" /\ i \in S.pend /\ S.sims[i].ph = "init"
    /\ S' = [S EXCEPT !.pend = @ \ {i}, !.busy = @ \cup {i}, !.sims[i] = FlushSet(@, 0)]
    /\ UNCHANGED cfg
StartEnd(i) ==
    /\ S.ph = "start" /\ i \in S.busy
    /\ LET bad == cfg.sims[i].fk = 4
           s1 == [S EXCEPT !.busy = @ \ {i}, !.failed = IF bad THEN @ \cup {i} ELSE @,
                    !.sims[i] = IF bad THEN [@ EXCEPT !.ph = "error"]
                                ELSE Refresh(i, [@ EXCEPT !.ph = "sim"], 0)]
       IN S' = Advance(s1)
    /\ UNCHANGED cfg
StepDt(i) == cfg.base * S.df[i]
DoStepBegin(i) ==
    /\ S.ph = "step" /\ i \in S.pend /\ S.sims[i].ph = "sim"
    /\ ~(cfg.sims[i].fk = 6 /\ S.sims[i].n + 1 = cfg.sims[i].fn)
    /\ S' = [S EXCEPT !.pend = @ \ {i}, !.busy = @ \cup {i}, !.sims[i] = FlushSet(@, StepDt(i))]
    /\ UNCHANGED cfg
\* ... which fails already when it is given its input values
SetFails(i) ==
    /\ S.ph = "step" /\ i \in S.pend /\ S.sims[i].ph = "sim"
    /\ cfg.sims[i].fk = 6 /\ S.sims[i].n + 1 = cfg.sims[i].fn
    /\ S' = Advance([S EXCEPT !.pend = @ \ {i}, !.failed = @ \cup {i}, !.sims[i].ph = "error"])
    /\ UNCHANGED cfg
DoStepEnd(i) ==
    /\ S.ph = "step" /\ i \in S.busy
    /\ LET at   == S.sims[i].n + 1 = cfg.sims[i].fn
           thr  == at /\ cfg.sims[i].fk \in {1, 5}
           inc  == at /\ cfg.sims[i].fk = 2
           s1 == [S EXCEPT !.busy = @ \ {i}, !.failed = IF thr \/ inc THEN @ \cup {i} ELSE @,
                    !.sims[i] = IF thr THEN [@ EXCEPT !.ph = "error"]
                                ELSE Refresh(i, [@ EXCEPT !.n = @ + 1, !.end = S.now + StepDt(i)], StepDt(i))]
       IN S' = Advance(s1)
    /\ UNCHANGED cfg

-----------------------------------------------------------------------------
(* Callbacks *)
Pop(s) == Advance([s EXCEPT !.q = Tail(@)])
AtHead(k, o) == S.q # <<>> /\ Head(S.q).k = k /\ Head(S.q).o = o
CbObsAdded(o, i)  == AtHead("oadd", o) /\ Head(S.q).is = {i} /\ S' = Pop(S) /\ UNCHANGED cfg
CbManAdded(m, i)  == AtHead("madd", m) /\ Head(S.q).is = {i} /\ S' = Pop(S) /\ UNCHANGED cfg
CbObsInit(o)      == AtHead("oinit", o) /\ S' = Pop(S) /\ UNCHANGED cfg
CbManStep(m)      == AtHead("mstep", m) /\ S' = Pop(S) /\ UNCHANGED cfg
\* ... in which it adds an observer: that one misses nothing either
CbManStepAdds(m, o) ==
    /\ AtHead("mstep", m)
    /\ LET s1 == WithObs(S, o)
           n  == Len(s1.obs)
       IN S' = [s1 EXCEPT !.q = SimQ(s1, "oadd", n) \o << [k |-> "oinit", o |-> n, is |-> {}] >> \o Tail(@)]
    /\ UNCHANGED cfg
CbObsSim(o, i) ==
    /\ AtHead("osim", o) /\ i \in Head(S.q).is
    /\ S' = IF Head(S.q).is = {i} THEN Pop(S)
            ELSE [S EXCEPT !.q = << [Head(S.q) EXCEPT !.is = @ \ {i}] >> \o Tail(S.q)]
    /\ UNCHANGED cfg
\* `stops`: the observer calls stop_simulation() from inside this callback
CbObsStep(o, stops) ==
    /\ AtHead("ostep", o)
    /\ S' = Pop([S EXCEPT !.stop = @ \/ stops])
    /\ UNCHANGED cfg

-----------------------------------------------------------------------------
(* Properties *)

\* A01: execution time lies on the grid, and every simulator's last interval
\* ends at the last grid point that is a multiple of its step.
TimeGrid == S.now = cfg.start + S.last * cfg.base
SimsOnGrid ==
    (S.ph \in {"idle", "obs", "end"} /\ S.inited /\ ~S.broken) =>
        \A i \in S.alive :
            LET k == S.df[i] IN
            S.sims[i].end = cfg.start + (((S.last + k - 1) \div k) * k) * cfg.base
        \* the interval that contains `now` has been entered: its end is the next multiple
\* A01: intervals are contiguous (action property)
Contiguous ==
    [][\A i \in DOMAIN S.sims :
         (i \in DOMAIN S'.sims /\ S'.sims[i].n > S.sims[i].n) =>
            /\ S.now = S.sims[i].end
            /\ S'.sims[i].n = S.sims[i].n + 1
            /\ S'.sims[i].end = S.sims[i].end + cfg.base * S.df[i]]_cvars

\* A04: at a joint communication point every connected input is about to
\* receive (or has received) exactly what the source reports there.
Fresh ==
    (S.ph \in {"idle", "obs"} /\ S.inited /\ ~S.broken) =>
        /\ \A c \in S.ss :
             (S.cnt % Lcm(S.df[c.s], S.df[c.t]) = 0)
                => S.sims[c.t].sl[c.w] = S.sims[c.s].gm[c.v]
        /\ \A c \in S.fs :
             (S.cnt % Lcm(FunDf(S, c.f), S.df[c.t]) = 0)
                => S.sims[c.t].sl[c.w] = S.funs[c.f].out[FunOutIdx(c.f, c.r)]
        /\ \A c \in S.sf :
             (S.cnt % Lcm(S.df[c.s], FunDf(S, c.f)) = 0)
                => S.funs[c.f].in[FunInIdx(c.f, c.r)] = S.sims[c.s].gm[c.v]

\* A05: barrier - no callback is due while a slave call is open, no slave is
\* stepping while another is still being set up or started
Barrier == S.busy # {} => S.q = <<>>
PhaseSync ==
    \A i \in S.alive :
        /\ (S.ph \in {"start", "obsinit"} /\ ~S.broken) => S.sims[i].ph \in {"init", "sim", "error"}
        /\ (S.ph \in {"step", "man", "obs"} /\ ~S.broken) => S.sims[i].ph \in {"sim", "error"}

\* A07: single source per input
SingleSource ==
    /\ \A j \in DOMAIN S.sims : \A w \in 1..NV(j) :
         Cardinality({c \in S.ss : c.t = j /\ c.w = w}) + Cardinality({c \in S.fs : c.t = j /\ c.w = w}) <= 1
    /\ \A c, d \in S.sf : (c.f = d.f /\ c.r = d.r) => c = d

\* A08: after a failure nothing is published
FailedStepNotPublished == (S.failed # {}) => (S.q = <<>> /\ S.ph \in {"setup", "start", "step", "end", "idle", "retry"})
\* ... no value is transferred: what a slave will get next is what it would have got before
NotTransferred ==
    [][(S.failed # {} /\ S'.failed # {} /\ S'.ph # "step") =>
          \A i \in DOMAIN S.sims : S'.sims[i].sl = S.sims[i].sl]_cvars
ErrorIsFinal ==
    [][\A i \in DOMAIN S.sims : S.sims[i].ph = "error" =>
          (S'.sims[i].ph = "error" /\ S'.sims[i].n = S.sims[i].n /\ i \notin S'.busy)]_cvars

\* A09: step numbers and time only advance one at a time, and only when every observer's
\* queue of the previous step is empty
StepOrder ==
    [][S'.last # S.last =>
         (S'.last = S.last + 1 /\ S'.now = S.now + cfg.base /\ S.q = <<>>)]_cvars

\* A10: the reported set of modified variables is the set with an active modifier,
\* and what consumers see is the modified original
ModSet ==
    \A i \in DOMAIN S.sims :
        S.sims[i].mset = {v \in 1..NV(i) : S.sims[i].smod[v].k # 0 \/ S.sims[i].gmod[v].k # 0}
=============================================================================
