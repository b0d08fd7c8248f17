----------------------------- MODULE MCProxyUri -----------------------------
(* All lookups of all files of a small tree, by every kind of reference, on  *)
(* every kind of host, from every base.                                     *)
EXTENDS ProxyUri, TLC
CONSTANTS Variant, MaxName   \* "" or "glued": base directory, slash and FILE put together as text
VARIABLES r, want, m
vars == <<r, want, m>>
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == 31 + CHOOSE k \in 1..95 : SubSeq(ASCII, k, k) = c
Txt(t) == [i \in 1..Len(t) |-> Code(SubSeq(t, i, i))]
Octets == {97, 32, 37, 38, 61, 35, 63, 58, 195}
Names == UNION {[1..n -> Octets] : n \in 1..MaxName}
Dirs == {Txt("/d"), Txt("/a b"), Txt("/50%25/e"), Txt("/d/file=")}
Sl == <<SLASH>>
Esc(s) == Encode(s, {47})
Auths == {Txt("localhost"), Txt("localhost:9"), Txt("h:80"), Txt("h:65535"), Txt("h:0"), Txt("h:8x"), Txt("h:"), Txt("h:65536"), Txt("h:-1")}
(* how to say that file d/n is meant *)
Says == {"abs", "uri", "rel", "dot", "up"}
Ref(d, n, how) == CASE how = "abs" -> Esc(d \o Sl \o n)
                    [] how = "uri" -> PathUri(d \o Sl \o n)
                    [] how = "rel" -> Txt("./") \o Esc(n)
                    [] how = "dot" -> Txt("././") \o Esc(n)
                    [] how = "up" -> Txt("x/../") \o Esc(n)
Base(d, how) == IF how = "none" THEN <<>>
                ELSE IF how = "text" THEN <<Txt("rel/x")>>
                ELSE IF how = "http" THEN <<Txt("http://h/b")>>
                ELSE IF how = "other" THEN <<PathUri(Txt("/o/x"))>>
                ELSE <<PathUri(d \o Sl \o Txt("s.xml"))>>
(* only references which mean a file whatever the base, or relative ones with the base that is meant *)
Means(bh, how) == how = "uri" \/ (how = "abs" /\ bh # "http") \/ bh = "dir"
Init == \E d \in Dirs, n \in Names, how \in Says, bh \in {"none", "text", "http", "other", "dir"}, a \in Auths :
           /\ r = [base |-> Base(d, bh), ref |-> PROXY \o Txt("://") \o a \o Txt("?file=") \o Ref(d, n, how)]
           /\ want = [d |-> d, n |-> n, how |-> how, bh |-> bh, a |-> a]
           /\ m = Start
Exists == {want.d \o Sl \o want.n, Txt("/d/s.xml")}
Glued(x) == LET R == Decompose(x.ref) IN
            IF Based(x) /\ ~Starts(FileRef(R), FILECOLON)
            THEN Compose([R EXCEPT !.query = <<FILEIS \o SubSeq(x.base[1], 1, Last(x.base[1], {SLASH})) \o FileRef(R)>>])
            ELSE x.ref
Advance == IF Variant = "glued" /\ m.at = "target" THEN [m EXCEPT !.at = "scheme", !.u = Glued(r)] ELSE Step(m, r, Exists)
Next == m.out = "" /\ m' = Advance /\ UNCHANGED <<r, want>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Is == m.out \in {"local", "remote"}
(* the file meant is the file found *)
Found == (m.out # "" /\ Means(want.bh, want.how) /\ PortOk(want.a)) => Is /\ m.file = <<want.d \o Sl \o want.n>>
(* never another one *)
Only == Is => m.file[1] \in Exists
Refused == (m.out # "" /\ ~PortOk(want.a)) => m.out = "error"
Placed == Is => m.out = (IF want.a = LOCALHOST THEN "local" ELSE "remote") /\ Where(m) = want.a
(* resolving first and asking then comes to the same *)
Once == (m.out # "" /\ Variant = "") => LET x == Lookup([base |-> <<>>, ref |-> m.u], Exists) IN x.out = m.out /\ x.file = m.file
(* what is there is the same as what the file resolver would have been asked for *)
AsFile == (Is /\ Based(r)) => <<UriPath(Decompose(Resolve(r.base[1], FileRef(Decompose(r.ref)))))>> = m.file
Ending == <>(m.out # "")

(* Requests for others pass, from any base, and what is missing is an error. *)
Req(b, x) == [base |-> b, ref |-> x]
Bases == {<<>>, <<Txt("file:///d/s.xml")>>, <<Txt("http://h/b")>>, <<Txt("rel")>>}
ASSUME \A b \in Bases : \A x \in {"file:///d/a.fmu", "http://h?file=a", "x:file=a", "file:///a?file=b", "proxyfm://h:1?file=/d/s.xml"} :
           Lookup(Req(b, Txt(x)), {Txt("/d/s.xml")}).out = "pass"
ASSUME \A b \in Bases : \A x \in {"proxyfmu://h:1", "proxyfmu:?file=/d/s.xml", "proxyfmu:/d?file=/d/s.xml", "proxyfmu://h:1#file=/d/s.xml", "proxyfmu://h:1?file=/no"} :
           Lookup(Req(b, Txt(x)), {Txt("/d/s.xml")}).out = "error"
ASSUME \A b \in Bases : Lookup(Req(b, Txt("proxyfmu://h:1?guid=x")), {}).out = "pass"
=============================================================================
