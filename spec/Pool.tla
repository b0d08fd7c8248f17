-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* cosim::utility::thread_pool: N workers serving one FIFO queue.  With no   *)
(* workers a task runs inside submit.  Waiters are released when nothing is  *)
(* queued or running; whoever ends the last task wakes all of them.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE Q
CONSTANT N          \* number of workers

InitQ == [ queue |-> <<>>,      \* tasks not yet taken
           calls |-> {},        \* submit calls in progress, not yet enqueued
           taken |-> {},        \* taken by a worker, not yet begun
           run |-> {},          \* <<task, thread>>
           done |-> {},         \* ended
           acc |-> {},          \* everything ever submitted
           inl |-> {},          \* N = 0: <<task, thread>> to run inside submit
           wait |-> {},         \* <<waiter, tasks it must outlast>>
           asleep |-> {},       \* waiters blocked (model only)
           open |-> TRUE, gone |-> FALSE ]
Running == {p[1] : p \in Q.run}
SubmitBegin(k, th) ==
    /\ k \notin Q.acc /\ ~Q.gone
    /\ Q' = IF N = 0 THEN [Q EXCEPT !.acc = @ \cup {k}, !.inl = @ \cup {<<k, th>>}]
            ELSE [Q EXCEPT !.acc = @ \cup {k}, !.calls = @ \cup {k}]
\* silent: the task enters the queue
Enqueue(k) == k \in Q.calls /\ Q' = [Q EXCEPT !.calls = @ \ {k}, !.queue = Append(@, k)]
SubmitEnd(k) == /\ k \in Q.acc /\ k \notin Q.calls /\ (N = 0 => k \in Q.done) /\ Q' = Q
\* silent: an idle worker takes the oldest task
Take == /\ Q.queue # <<>> /\ Cardinality(Q.taken) + Cardinality(Q.run) < N
        /\ Q' = [Q EXCEPT !.queue = Tail(@), !.taken = @ \cup {Head(Q.queue)}]
TaskBegin(k, th) ==
    /\ ~Q.gone
    /\ \A p \in Q.run : N > 0 => p[2] # th
    /\ IF N = 0 THEN <<k, th>> \in Q.inl /\ Q' = [Q EXCEPT !.inl = @ \ {<<k, th>>}, !.run = @ \cup {<<k, th>>}]
       ELSE k \in Q.taken /\ Q' = [Q EXCEPT !.taken = @ \ {k}, !.run = @ \cup {<<k, th>>}]
TaskEnd(k, th) == <<k, th>> \in Q.run /\ Q' = [Q EXCEPT !.run = @ \ {<<k, th>>}, !.done = @ \cup {k}]
Quiet(q) == q.queue = <<>> /\ q.taken = {} /\ q.run = {}
WaitBegin(w) == Q' = [Q EXCEPT !.wait = @ \cup {<<w, IF N = 0 THEN Q.done ELSE Q.acc \ Q.calls>>}]
WaitEnd(w) == \E p \in Q.wait : /\ p[1] = w /\ p[2] \subseteq Q.done
                                /\ Q' = [Q EXCEPT !.wait = @ \ {p}]
DestroyBegin == Q.open /\ Q' = [Q EXCEPT !.open = FALSE]
DestroyEnd == ~Q.open /\ Q.calls = {} /\ Quiet(Q) /\ Q.acc = Q.done /\ Q' = [Q EXCEPT !.gone = TRUE]

ExactlyOnce == /\ Running \cap Q.done = {} /\ Q.taken \cap (Running \cup Q.done) = {}
               /\ Cardinality(Q.run) = Cardinality(Running)
AllRun == Q.gone => Q.done = Q.acc
=============================================================================
