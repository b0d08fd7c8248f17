----------------------------- MODULE MCResolver -----------------------------
EXTENDS Resolver, TLC
CONSTANTS MaxSubs, First2   \* First2: TRUE in a wrong variant that goes on after a failure
VARIABLES subs, r, m
vars == <<subs, r, m>>
A == <<97>>  B == <<98>>
R(sc, e, a) == [sc |-> sc, end |-> e, act |-> a]
Menu == {[kind |-> "plain", rules |-> <<R(A, <<>>, "take")>>],
         [kind |-> "plain", rules |-> <<R(A, <<>>, "pass"), R(<<>>, <<>>, "take")>>],
         [kind |-> "plain", rules |-> <<R(<<>>, <<47, 120>>, "fail")>>],
         [kind |-> "raw", rules |-> <<R(<<>>, <<120>>, "take")>>],
         [kind |-> "plain", rules |-> <<>>], [kind |-> "file", rules |-> <<>>]}
fu == <<120, 46, 102, 109, 117>>
Uris == {A \o <<58, 47, 120>>, B \o <<58, 47, 121>>, <<120>>, FILE \o <<58, 47, 47, 47>> \o fu, fu}
Bases == {<<>>, <<A \o <<58, 47, 121>>>>, <<<<121>>>>, <<FILE \o <<58, 47, 47, 47, 100, 47>>>>}
Init == subs = <<>> /\ r = [base |-> <<>>, ref |-> <<>>] /\ m = Start
Add(s) == m = Start /\ r.ref = <<>> /\ Len(subs) < MaxSubs /\ UNCHANGED <<r, m>>
          /\ subs' = Append(subs, [id |-> Len(subs) + 1, kind |-> s.kind, rules |-> s.rules])
Ask(b, u) == r.ref = <<>> /\ r' = [base |-> b, ref |-> u] /\ UNCHANGED <<subs, m>>
Go == r.ref # <<>> /\ m.out = "" /\ UNCHANGED <<subs, r>>
      /\ m' = LET n == Step(m, subs, r) IN IF First2 /\ n.out = "fail" /\ n.i < Len(subs) THEN [n EXCEPT !.out = ""] ELSE n
Next == (\E s \in Menu : Add(s)) \/ (\E b \in Bases, u \in Uris : Ask(b, u)) \/ Go
Spec == Init /\ [][Next]_vars /\ WF_vars(Go)
\* said directly: the first that does not decline decides
Deciders == {i \in 1..Len(subs) : Does(subs[i], r) # "pass"}
ByFirst == m.out # "" =>
    IF ~Absolute(r) THEN m.out = "invalid" /\ m.calls = <<>>
    ELSE IF Deciders = {} THEN m.out = "none" /\ Len(m.calls) = Len(subs)
    ELSE LET i == CHOOSE x \in Deciders : \A y \in Deciders : x <= y IN
         m.out = (IF Does(subs[i], r) = "take" THEN "model" ELSE "fail") /\ Len(m.calls) = i
InOrder == \A i \in 1..Len(m.calls) : m.calls[i].id = i
Absolutes == \A i \in 1..Len(m.calls) : subs[i].kind # "raw" => Decompose(m.calls[i].u).scheme # <<>>
SameAtOnce == m.out # "" /\ ~First2 => m = Lookup(subs, r)
Ending == (r.ref # <<>>) ~> (m.out # "")
=============================================================================
