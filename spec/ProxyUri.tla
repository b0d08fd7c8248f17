------------------------------ MODULE ProxyUri ------------------------------
(***************************************************************************)
(* Lookup of FMUs which run elsewhere:  proxyfmu://HOST[:PORT]?file=FILE    *)
(* FILE, all of what follows "file=" in the query, is a file URI, an        *)
(* absolute path, or - where a base URI is given - a reference relative to  *)
(* it; it is percent-coded.  "localhost" without a port is a process on     *)
(* this machine, everything else a server.                                  *)
(*                                                                         *)
(* A request is [base: <<>> or <<octets>>, ref: octets].  One lookup is a   *)
(* transition system over                                                  *)
(*   M = [at, u, file, out]                                                *)
(*   at: what is done next;  u: the URI so far;  file: the path found;      *)
(* (a path without a base is used as it is: what its dots mean is left to   *)
(* the file system)                                                        *)
(*   out: "" until the lookup ends, then "pass" (someone else may know the  *)
(*   URI), "error", "local" or "remote".                                   *)
(***************************************************************************)
EXTENDS Uri
PROXY == <<112, 114, 111, 120, 121, 102, 109, 117>>
FILEIS == <<102, 105, 108, 101, 61>>
FILECOLON == FILE \o <<COLON>>

IsProxy(D) == D.scheme = <<PROXY>>
HasFile(D) == D.query # <<>> /\ Starts(D.query[1], FILEIS)
FileRef(D) == From(D.query[1], 6)

(* HOST[:PORT] *)
Host(a) == SubSeq(a, 1, First(a, {COLON}) - 1)
HasPort(a) == First(a, {COLON}) <= Len(a)
PortText(a) == From(a, First(a, {COLON}) + 1)
RECURSIVE Num(_, _)
Num(s, n) == IF s = <<>> THEN n ELSE Num(Tail(s), IF n > 65535 THEN n ELSE n * 10 + s[1] - 48)
PortOk(a) == HasPort(a) => PortText(a) # <<>> /\ Range(PortText(a)) \subseteq Digit /\ Num(PortText(a), 0) \in 1..65535
Port(a) == IF HasPort(a) THEN Num(PortText(a), 0) ELSE 0
(* What hosts without a name, ports or addresses in brackets mean is left open, and so is a server without a port. *)
Plain(a) == Host(a) # <<>> /\ Range(Host(a)) \cap {64, 91, 93} = {} /\ (HasPort(a) \/ a = LOCALHOST)

(* the path that a FILE without a base denotes: <<>> or <<path>> *)
FilePath(f) == IF Starts(f, FILECOLON) THEN The({IF CanToPath(D) THEN <<UriPath(D)>> ELSE <<>> : D \in {Decompose(f)}})
               ELSE <<Decode(f)>>

Start == [at |-> "target", u |-> <<>>, file |-> <<>>, out |-> ""]
End(m, o) == [m EXCEPT !.at = "done", !.out = o]
Based(r) == r.base # <<>> /\ Decompose(r.base[1]).scheme # <<>>
Step(m, r, exists) ==
    CASE m.at = "target" ->          \* the file is relative to the same base as the reference
           LET R == Decompose(r.ref) IN
           IF Based(r) /\ IsProxy(R) /\ HasFile(R)
           THEN [m EXCEPT !.at = "scheme", !.u = Compose([R EXCEPT !.query = <<FILEIS \o Resolve(r.base[1], FileRef(R))>>])]
           ELSE [m EXCEPT !.at = "scheme", !.u = IF Based(r) THEN Resolve(r.base[1], r.ref)
                                                 ELSE IF r.base # <<>> THEN Resolve(r.ref, r.ref) ELSE r.ref]
      [] m.at = "scheme" ->
           LET D == Decompose(m.u) IN
           IF ~IsProxy(D) THEN End(m, "pass")
           ELSE IF D.authority = <<>> \/ D.query = <<>> THEN End(m, "error")
           ELSE IF ~HasFile(D) THEN End(m, "pass")
           ELSE IF ~PortOk(D.authority[1]) THEN End(m, "error")
           ELSE [m EXCEPT !.at = "locate"]
      [] m.at = "locate" ->
           LET p == FilePath(FileRef(Decompose(m.u))) IN
           IF p = <<>> \/ RemoveDots(p[1]) \notin exists THEN End(m, "error")
           ELSE [m EXCEPT !.at = "place", !.file = p]
      [] m.at = "place" -> End(m, IF Decompose(m.u).authority = <<LOCALHOST>> THEN "local" ELSE "remote")
RECURSIVE Finish(_, _, _)
Finish(m, r, exists) == IF m.out # "" THEN m ELSE The({Finish(n, r, exists) : n \in {Step(m, r, exists)}})
Lookup(r, exists) == Finish(Start, r, exists)
Where(m) == Decompose(m.u).authority[1]
(* a scenario may only have requests whose meaning is fixed *)
Defined(r) == /\ Decompose(r.ref).scheme # <<>> \/ Based(r)
              /\ \A D \in {Decompose(r.ref)} : (IsProxy(D) /\ D.authority # <<>>) =>
                    Plain(D.authority[1]) /\ (PortOk(D.authority[1]) \/ HasFile(D))
=============================================================================
