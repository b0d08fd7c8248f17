------------------------------ MODULE Resolver ------------------------------
(***************************************************************************)
(* model_uri_resolver: sub-resolvers are consulted one after another, in    *)
(* the order in which they were added, until one returns a model or fails.  *)
(* A sub-resolver is [id, kind, rules]; rules say for which URIs it returns *)
(* a model ("take"), declines ("pass") or fails ("fail").                   *)
(*   kind "plain": gets the resolved URI                                    *)
(*        "raw":   gets the base and the reference as they are              *)
(*        "file":  the built-in one for FMU files                           *)
(* One lookup is a transition system over M:                                *)
(*   M.i: number of sub-resolvers consulted so far;  M.calls: what was      *)
(*   asked of whom;  M.out: "" until the lookup ends, then "model", "fail", *)
(*   "none" (no one knows the URI) or "invalid" (no absolute URI given)     *)
(***************************************************************************)
EXTENDS Uri
\* rules: sequence of [sc: scheme or <<>> for any, end: end of the path, act]
Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
RECURSIVE Act(_, _)
Act(rules, D) == IF rules = <<>> THEN "pass"
                 ELSE IF (rules[1].sc = <<>> \/ D.scheme = <<rules[1].sc>>) /\ Ends(D.path, rules[1].end) THEN rules[1].act
                 ELSE Act(Tail(rules), D)
FMU == <<46, 102, 109, 117>>
(* the extension of a path as file systems see it: "x/.fmu" has none *)
Name(p) == From(p, Last(p, {SLASH}) + 1)
IsFmu(p) == Ends(Name(p), FMU) /\ Len(Name(p)) > Len(FMU)
\* (What becomes of "file:/x", without an authority, is left open: no scenario has it.)
FileAct(D, bad) ==
    IF D.scheme # <<FILE>> \/ D.authority \notin {<<>>, <<<<>>>>, <<LOCALHOST>>} THEN "pass"
    ELSE IF D.authority = <<>> THEN "fail"
    ELSE IF ~IsFmu(UriPath(D)) THEN "pass"
    ELSE IF Ends(UriPath(D), bad) THEN "fail" ELSE "take"
BAD == <<98, 97, 100>> \o FMU   \* "bad.fmu": cannot be imported

(* Req: [base: <<>> or <<octets>>, ref: octets] *)
Absolute(r) == Decompose(r.ref).scheme # <<>> \/ (r.base # <<>> /\ Decompose(r.base[1]).scheme # <<>>)
Target(r) == IF r.base = <<>> THEN r.ref
             ELSE IF Decompose(r.base[1]).scheme = <<>> THEN Resolve(r.ref, r.ref) ELSE Resolve(r.base[1], r.ref)
\* what sub-resolver s does with request r, and what it is asked
Does(s, r) == IF s.kind = "raw" THEN Act(s.rules, Decompose(r.ref))
              ELSE IF s.kind = "file" THEN FileAct(Decompose(Target(r)), BAD)
              ELSE Act(s.rules, Decompose(Target(r)))
Asked(s, r) == IF s.kind = "raw" THEN [id |-> s.id, base |-> r.base, u |-> r.ref]
               ELSE [id |-> s.id, base |-> <<>>, u |-> Target(r)]
Start == [i |-> 0, calls |-> <<>>, out |-> ""]
Step(m, subs, r) ==
    IF ~Absolute(r) THEN [m EXCEPT !.out = "invalid"]
    ELSE IF m.i = Len(subs) THEN [m EXCEPT !.out = "none"]
    ELSE LET s == subs[m.i + 1] a == Does(s, r) IN
         [i |-> m.i + 1, calls |-> Append(m.calls, Asked(s, r)),
          out |-> IF a = "take" THEN "model" ELSE IF a = "fail" THEN "fail" ELSE ""]
RECURSIVE Finish(_, _, _)
Finish(m, subs, r) == IF m.out # "" THEN m ELSE The({Finish(n, subs, r) : n \in {Step(m, subs, r)}})
Lookup(subs, r) == Finish(Start, subs, r)
=============================================================================
