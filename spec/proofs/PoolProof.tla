------------------------------ MODULE PoolProof ------------------------------
(* For any number of workers, waiters and tasks: no task is run twice or lost, *)
(* and when nothing is queued or running everything submitted has been run.    *)
EXTENDS Pool, SequenceTheorems, TLAPS
CONSTANTS Tasks, Threads, Ws
Next == \/ \E k \in Tasks, th \in Threads : SubmitBegin(k, th) \/ TaskBegin(k, th) \/ TaskEnd(k, th)
        \/ \E k \in Tasks : Enqueue(k) \/ SubmitEnd(k)
        \/ Take \/ DestroyBegin \/ DestroyEnd
        \/ \E w \in Ws : WaitBegin(w) \/ WaitEnd(w)
Spec == Q = InitQ /\ [][Next]_Q
Queued == {Q.queue[j] : j \in 1..Len(Q.queue)}
Inlined == {p[1] : p \in Q.inl}
TypeOk == Q \in [queue : Seq(Tasks), calls : SUBSET Tasks, taken : SUBSET Tasks, run : SUBSET (Tasks \X Threads), done : SUBSET Tasks,
                 acc : SUBSET Tasks, inl : SUBSET (Tasks \X Threads), wait : SUBSET (Ws \X SUBSET Tasks), asleep : {{}}, open : BOOLEAN, gone : BOOLEAN]
\* every submitted task is in exactly one place, once
Alone == /\ \A j, m \in 1..Len(Q.queue) : Q.queue[j] = Q.queue[m] => j = m
         /\ \A p, r \in Q.run : p[1] = r[1] => p = r
         /\ \A p, r \in Q.inl : p[1] = r[1] => p = r
         /\ Queued \cap (Q.calls \cup Q.taken \cup Running \cup Q.done \cup Inlined) = {}
         /\ Q.calls \cap (Q.taken \cup Running \cup Q.done \cup Inlined) = {}
         /\ Q.taken \cap (Running \cup Q.done \cup Inlined) = {}
         /\ Running \cap (Q.done \cup Inlined) = {}
         /\ Q.done \cap Inlined = {}
NoneLost == Q.acc = Queued \cup Q.calls \cup Q.taken \cup Running \cup Q.done \cup Inlined
Promises == \A p \in Q.wait : p[2] \subseteq Q.acc
Inv == TypeOk /\ Alone /\ NoneLost /\ Promises /\ (Q.gone => Q.done = Q.acc)
Kept == Quiet(Q) /\ Q.calls = {} /\ Q.inl = {} => Q.done = Q.acc /\ \A p \in Q.wait : p[2] \subseteq Q.done
THEOREM Safe == Spec => [](Alone /\ NoneLost /\ AllRun /\ Kept)
<1>1. Q = InitQ => Inv
  BY DEF InitQ, Inv, TypeOk, Alone, NoneLost, Promises, Queued, Inlined, Running
<1>2. Inv /\ [Next]_Q => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_Q PROVE Inv'
    OBVIOUS
  <2>0. TypeOk
    BY DEF Inv
  <2>1. ASSUME NEW k \in Tasks, NEW th \in Threads, SubmitBegin(k, th) PROVE Inv'
    BY <2>1 DEF SubmitBegin, Inv, TypeOk, Alone, NoneLost, Promises, Queued, Inlined, Running
  <2>2. ASSUME NEW k \in Tasks, NEW th \in Threads, TaskBegin(k, th) PROVE Inv'
    BY <2>2 DEF TaskBegin, Inv, TypeOk, Alone, NoneLost, Promises, Queued, Inlined, Running
  <2>3. ASSUME NEW k \in Tasks, NEW th \in Threads, TaskEnd(k, th) PROVE Inv'
    BY <2>3 DEF TaskEnd, Inv, TypeOk, Alone, NoneLost, Promises, Queued, Inlined, Running
  <2>4. ASSUME NEW k \in Tasks, Enqueue(k) PROVE Inv'
    <3>1. Q.queue \in Seq(Tasks) /\ k \in Q.calls
      BY <2>0, <2>4 DEF TypeOk, Enqueue
    <3>2. Q' = [Q EXCEPT !.calls = @ \ {k}, !.queue = Append(@, k)]
      BY <2>4 DEF Enqueue
    <3>3. /\ Q'.queue = Append(Q.queue, k) /\ Q'.queue \in Seq(Tasks) /\ Len(Q'.queue) = Len(Q.queue) + 1
          /\ \A j \in 1..Len(Q.queue) : Q'.queue[j] = Q.queue[j]
          /\ Q'.queue[Len(Q.queue) + 1] = k
      BY <2>0, <3>1, <3>2 DEF TypeOk
    <3>4. Queued' = Queued \cup {k}
      BY <3>1, <3>3 DEF Queued
    <3>5. k \notin Queued
      BY <3>1 DEF Inv, Alone
    <3>6. \A j, m \in 1..Len(Q'.queue) : Q'.queue[j] = Q'.queue[m] => j = m
      BY <3>1, <3>3, <3>5 DEF Inv, Alone, Queued
    <3>7. TypeOk'
      BY <2>0, <3>2, <3>3 DEF TypeOk
    <3>8. /\ Q'.calls = Q.calls \ {k} /\ Q'.taken = Q.taken /\ Q'.run = Q.run /\ Q'.done = Q.done /\ Q'.acc = Q.acc /\ Q'.inl = Q.inl
          /\ Q'.wait = Q.wait /\ Q'.gone = Q.gone
      BY <2>0, <3>2 DEF TypeOk
    <3>9. Running' = Running /\ Inlined' = Inlined
      BY <3>8 DEF Running, Inlined
    <3> QED BY <3>1, <3>4, <3>5, <3>6, <3>7, <3>8, <3>9 DEF Inv, Alone, NoneLost, Promises
  <2>5. ASSUME NEW k \in Tasks, SubmitEnd(k) PROVE Inv'
    BY <2>5 DEF SubmitEnd, Inv, TypeOk, Alone, NoneLost, Promises, Queued, Inlined, Running
  <2>6. ASSUME Take PROVE Inv'
    <3>1. Q.queue \in Seq(Tasks) /\ Q.queue # <<>>
      BY <2>0, <2>6 DEF TypeOk, Take
    <3>2. Q' = [Q EXCEPT !.queue = Tail(@), !.taken = @ \cup {Head(Q.queue)}]
      BY <2>6 DEF Take
    <3>3. /\ Q'.queue = Tail(Q.queue) /\ Q'.queue \in Seq(Tasks) /\ Len(Q.queue) \in Nat /\ Len(Q.queue) > 0 /\ Len(Q'.queue) = Len(Q.queue) - 1
          /\ \A j \in 1..Len(Q'.queue) : Q'.queue[j] = Q.queue[j + 1]
          /\ Head(Q.queue) = Q.queue[1] /\ Head(Q.queue) \in Tasks
      BY <2>0, <3>1, <3>2 DEF TypeOk
    <3>4. Queued = Queued' \cup {Head(Q.queue)}
      <4>1. ASSUME NEW j \in 1..Len(Q.queue) PROVE Q.queue[j] \in Queued' \cup {Head(Q.queue)}
        <5>1. CASE j = 1
          BY <5>1, <3>3
        <5>2. CASE j # 1
          <6>1. j - 1 \in 1..Len(Q'.queue) /\ Q'.queue[j - 1] = Q.queue[(j - 1) + 1]
            BY <5>2, <3>3
          <6> QED BY <6>1, <3>3 DEF Queued
        <5> QED BY <5>1, <5>2
      <4>2. ASSUME NEW j \in 1..Len(Q'.queue) PROVE Q'.queue[j] \in Queued
        <5>1. j + 1 \in 1..Len(Q.queue)
          BY <3>3
        <5> QED BY <5>1, <3>3 DEF Queued
      <4>3. Head(Q.queue) \in Queued
        BY <3>3 DEF Queued
      <4> QED BY <4>1, <4>2, <4>3 DEF Queued
    <3>5. Head(Q.queue) \notin Queued'
      <4> SUFFICES ASSUME NEW j \in 1..Len(Q'.queue), Q'.queue[j] = Head(Q.queue) PROVE FALSE
        BY DEF Queued
      <4>1. j + 1 \in 1..Len(Q.queue) /\ 1 \in 1..Len(Q.queue) /\ j + 1 # 1
        BY <3>3
      <4> QED BY <4>1, <3>3 DEF Inv, Alone
    <3>6. \A j, m \in 1..Len(Q'.queue) : Q'.queue[j] = Q'.queue[m] => j = m
      <4> SUFFICES ASSUME NEW j \in 1..Len(Q'.queue), NEW m \in 1..Len(Q'.queue), Q'.queue[j] = Q'.queue[m] PROVE j = m
        OBVIOUS
      <4>1. j + 1 \in 1..Len(Q.queue) /\ m + 1 \in 1..Len(Q.queue)
        BY <3>3
      <4>2. j + 1 = m + 1
        BY <4>1, <3>3 DEF Inv, Alone
      <4> QED BY <4>2, <3>3
    <3>7. TypeOk'
      BY <2>0, <3>2, <3>3 DEF TypeOk
    <3>8. /\ Q'.calls = Q.calls /\ Q'.taken = Q.taken \cup {Head(Q.queue)} /\ Q'.run = Q.run /\ Q'.done = Q.done /\ Q'.acc = Q.acc /\ Q'.inl = Q.inl
          /\ Q'.wait = Q.wait /\ Q'.gone = Q.gone
      BY <2>0, <3>2 DEF TypeOk
    <3>9. Running' = Running /\ Inlined' = Inlined
      BY <3>8 DEF Running, Inlined
    <3> QED BY <3>4, <3>5, <3>6, <3>7, <3>8, <3>9 DEF Inv, Alone, NoneLost, Promises
  <2>7. ASSUME DestroyBegin PROVE Inv'
    BY <2>7 DEF DestroyBegin, Inv, TypeOk, Alone, NoneLost, Promises, Queued, Inlined, Running
  <2>8. ASSUME DestroyEnd PROVE Inv'
    BY <2>8 DEF DestroyEnd, Inv, TypeOk, Alone, NoneLost, Promises, Queued, Inlined, Running
  <2>9. ASSUME NEW w \in Ws, WaitBegin(w) PROVE Inv'
    BY <2>9 DEF WaitBegin, Inv, TypeOk, Alone, NoneLost, Promises, Queued, Inlined, Running
  <2>10. ASSUME NEW w \in Ws, WaitEnd(w) PROVE Inv'
    BY <2>10 DEF WaitEnd, Inv, TypeOk, Alone, NoneLost, Promises, Queued, Inlined, Running
  <2>11. ASSUME UNCHANGED Q PROVE Inv'
    BY <2>11 DEF Inv, TypeOk, Alone, NoneLost, Promises, Queued, Inlined, Running
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8, <2>9, <2>10, <2>11 DEF Next
<1>3. Inv => Alone /\ NoneLost /\ AllRun /\ Kept
  <2> SUFFICES ASSUME Inv PROVE Kept
    BY DEF Inv, AllRun
  <2> SUFFICES ASSUME Quiet(Q), Q.calls = {}, Q.inl = {} PROVE Q.done = Q.acc /\ \A p \in Q.wait : p[2] \subseteq Q.done
    BY DEF Kept
  <2>1. Queued = {} /\ Running = {} /\ Inlined = {} /\ Q.taken = {}
    BY DEF Quiet, Queued, Running, Inlined
  <2>2. Q.done = Q.acc
    BY <2>1 DEF Inv, NoneLost
  <2> QED BY <2>2 DEF Inv, Promises
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
