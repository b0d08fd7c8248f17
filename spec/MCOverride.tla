----------------------------- MODULE MCOverride -----------------------------
EXTENDS Override
CONSTANTS Threads, MaxReq
VARIABLES made, dueBy, lastDone
\* made: number of requests begun; dueBy: last value whose request had returned before the current step began, per variable
mvars == <<cfg, O, made, dueBy, lastDone>>
Targets == {1, 2, 3}
MInit == /\ cfg = [sims |-> <<<<[ca |-> 1], [ca |-> 2], [ca |-> 5]>>>>]
         /\ InitO /\ made = 0 /\ dueBy = <<>> /\ lastDone = <<>>
MReqBegin == \E th \in Threads, v \in Targets, k \in {0, 1} : made < MaxReq /\ made' = made + 1
    /\ ReqBegin(th, [i |-> 1, v |-> v, m |-> IF k = 1 THEN <<1, made + 1>> ELSE <<0, 0>>]) /\ UNCHANGED <<dueBy, lastDone>>
\* lastDone: requests enqueued, in order
MEnqueue == \E th \in Threads : Enqueue(th) /\ lastDone' = Append(lastDone, O.calls[th].r) /\ UNCHANGED <<made, dueBy>>
MReqEnd == \E th \in Threads, ok \in BOOLEAN : ReqEnd(th, ok) /\ UNCHANGED <<made, dueBy, lastDone>>
MStepBegin == StepBegin /\ dueBy' = lastDone /\ UNCHANGED <<made, lastDone>>
MApply == Apply /\ UNCHANGED <<made, dueBy, lastDone>>
MStepEnd == StepEnd /\ UNCHANGED <<made, dueBy, lastDone>>
MNext == MReqBegin \/ MEnqueue \/ MReqEnd \/ MStepBegin \/ MApply \/ MStepEnd
Spec == MInit /\ [][MNext]_mvars
Fair == Spec /\ WF_mvars(MApply) /\ WF_mvars(MStepEnd) /\ WF_mvars(MStepBegin) /\ WF_mvars(MEnqueue)
\* After a step has taken the queue, what is installed is the outcome of some prefix of all requests that includes every one due
PrefixEffect == O.ph = "out" =>
    \E n \in Len(dueBy)..Len(lastDone) : O.mod = Fold(<<>>, SubSeq(lastDone, 1, n))
NothingLost == O.mod = Fold(<<>>, SubSeq(lastDone, 1, Len(lastDone) - Len(O.pend)))
StepUndisturbed == [][O.mod' # O.mod => O.ph = "in"]_mvars
RefusedLeavesNoTrace == \A k \in DOMAIN O.mod : Modifiable(k[1], k[2])
EventuallyApplied == [](O.pend # <<>> => <>(O.pend = <<>>))
=============================================================================
