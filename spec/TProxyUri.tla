----------------------------- MODULE TProxyUri ------------------------------
(* Lookups recorded from the code.                                          *)
EXTENDS ProxyUri, TLC, Json, IOUtils
VARIABLES tid, l, exists
tvars == <<tid, l, exists>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ exists = {}
BAD == <<98, 97, 100, 46, 102, 109, 117>>   \* "bad.fmu": the server cannot load it
Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
\* what was asked of the server: nothing if the lookup did not get so far
Match ==
    CASE Line.e = "file" -> exists' = exists \cup {Line.p}
      [] Line.e = "gone" -> exists' = exists \ {Line.p}
      [] Line.e = "look" ->
           /\ UNCHANGED exists
           /\ LET r == [base |-> Line.b, ref |-> Line.r] IN
              /\ Defined(r)
              /\ \E m \in {Lookup(r, exists)} :
                   IF m.out \in {"pass", "error"} THEN /\ Line.asked = <<>>
                                                         \* (the resolver fails when nobody knows the URI)
                                                         /\ Line.out = IF Line.via = "all" THEN "error" ELSE m.out
                   ELSE /\ Line.asked = <<[file |-> m.file[1], local |-> IF m.out = "local" THEN 1 ELSE 0,
                                           host |-> IF m.out = "local" THEN <<>> ELSE Host(Where(m)),
                                           port |-> IF m.out = "local" THEN 0 ELSE Port(Where(m))]>>
                        /\ Line.out = IF Ends(m.file[1], BAD) THEN "server" ELSE "model"
                        /\ Line.out = "model" => Line.same = 1
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
