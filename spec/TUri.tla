-------------------------------- MODULE TUri -------------------------------
(* Calls of the URI functions recorded from the code.                       *)
EXTENDS Uri, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Ok == Line.ok = 1
TInit == tid \in 1..Len(Traces) /\ l = 1
Comps(L) == [scheme |-> L.sc, authority |-> L.au, path |-> L.pa, query |-> L.qu, fragment |-> L.fr]
In(L) == [scheme |-> L.isc, authority |-> L.iau, path |-> L.ipa, query |-> L.iqu, fragment |-> L.ifr]
Agrees(L) == L.ag = 1 /\ L.em = (IF L.v = <<>> THEN 1 ELSE 0)
Match ==
    CASE Line.e = "parse" ->
             /\ IsReference(Line.s) => Ok /\ Comps(Line) = Decompose(Line.s)
             /\ Ok => Line.v = Line.s /\ Compose(Comps(Line)) = Line.s /\ Agrees(Line)
      [] Line.e = "compose" ->
             LET D == In(Line) IN
             /\ Ok = CanCompose(D)
             /\ Ok => Line.v = Compose(D) /\ Comps(Line) = D /\ Agrees(Line)
      [] Line.e = "resolve" ->
             LET B == Decompose(Line.b) R == Decompose(Line.s) IN
             (IsReference(Line.b) /\ IsReference(Line.s)) =>
                 /\ Ok = (B.scheme # <<>>)
                 /\ Ok => LET T == Transform(B, R) IN
                          Agrees(Line) /\ Line.v = Compose(T) /\ (Ambiguous(T) \/ Comps(Line) = T)
      [] Line.e = "enc" -> Line.v = Encode(Line.s, Range(Line.x) \ {0})
      [] Line.e = "dec" -> WellEscaped(Line.s) => Ok /\ Line.v = Decode(Line.s)
      [] Line.e = "encuri" ->
             LET D == In(Line) E == EncodeAll(D) IN
             /\ Ok = CanCompose(E)
             /\ Ok => Line.v = Compose(E) /\ Comps(Line) = E /\ Agrees(Line)
      [] Line.e = "topath" ->
             LET D == Decompose(Line.s) IN
             IsReference(Line.s) => /\ Ok = CanToPath(D)
                                    /\ Ok => Line.v = UriPath(D)
      [] Line.e = "touri" ->
             /\ Ok = (Line.s = <<>> \/ Line.s[1] = SLASH)
             /\ Ok => LET D == Decompose(Line.v) IN
                      Line.s # <<>> => CanToPath(D) /\ Escaped(D.path, PChar \cup {SLASH}) /\ UriPath(D) = Line.s /\ Line.back = Line.s
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
