----------------------------- MODULE TResolver ------------------------------
(* Lookups recorded from the code.                                          *)
EXTENDS Resolver, TLC, Json, IOUtils
VARIABLES tid, l, subs
tvars == <<tid, l, subs>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ subs = <<>>
Imports(m, r) == LET D == Decompose(Target(r)) IN
    Cardinality({k \in 1..Len(m.calls) : subs[k].kind = "file" /\ FileAct(D, BAD) # "pass" /\ D.authority # <<>>
                                          /\ IsFmu(UriPath(D))})
Match ==
    CASE Line.e = "sub" -> subs' = Append(subs, [id |-> Line.id, kind |-> Line.kind, rules |-> Line.rules])
      [] Line.e = "move" -> UNCHANGED subs
      [] Line.e = "new" -> subs' = <<>>
      [] Line.e = "lookup" ->
           /\ \E r \in {[base |-> Line.b, ref |-> Line.r]} : \E m \in {Lookup(subs, r)} :
                /\ m.out = Line.out
                \* (the built-in sub-resolver is seen only when it imports a file)
                /\ Line.calls = SelectSeq(m.calls, LAMBDA c : \E i \in 1..Len(subs) : subs[i].id = c.id /\ subs[i].kind # "file")
                /\ Len(Line.imports) = (IF Absolute(r) THEN Imports(m, r) ELSE 0)
                /\ \A i \in 1..Len(Line.imports) : Line.imports[i] = UriPath(Decompose(Target(r)))
                /\ Line.out = "model" => Line.who = subs[m.i].id /\ Line.names = 1
                /\ Line.out = "fail" => Line.who = subs[m.i].id
           /\ UNCHANGED subs
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
