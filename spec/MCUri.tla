------------------------------- MODULE MCUri -------------------------------
(* Explores remove_dot_segments step by step over all paths, and all        *)
(* strings over an alphabet with every delimiter, up to a length.           *)
EXTENDS Uri, TLC
CONSTANTS MaxPath, MaxStr, MaxRef, MaxCode
VARIABLES mode, s, in, out, run
vars == <<mode, s, in, out, run>>
A == 97
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == 31 + CHOOSE k \in 1..95 : SubSeq(ASCII, k, k) = c
Txt(t) == [i \in 1..Len(t) |-> Code(SubSeq(t, i, i))]

MaxLen(m) == CASE m = "dots" -> MaxPath [] m = "split" -> MaxStr [] m = "resolve" -> MaxRef [] OTHER -> MaxCode
Alphabet(m) == CASE m = "dots" -> {A, DOT, SLASH}
                 [] m = "split" -> {A, DOT, SLASH, COLON, QM, HASH}
                 [] m = "resolve" -> {A, DOT, SLASH, QM}
                 [] OTHER -> {0, 37, 47, 50, 65, 97, 122, 255}
Init == mode \in {"dots", "split", "resolve", "code"} /\ s = <<>> /\ in = <<>> /\ out = <<>> /\ run = FALSE
(* write one more octet *)
Grow(c) == ~run /\ Len(s) < MaxLen(mode) /\ s' = Append(s, c) /\ UNCHANGED <<mode, in, out, run>>
Start == mode = "dots" /\ ~run /\ run' = TRUE /\ in' = s /\ UNCHANGED <<mode, s, out>>
DotsStep == /\ run /\ in # <<>>
            /\ in' = DotStep(in, out)[1] /\ out' = DotStep(in, out)[2] /\ UNCHANGED <<mode, s, run>>
Next == (\E c \in Alphabet(mode) : Grow(c)) \/ Start \/ DotsStep
Spec == Init /\ [][Next]_vars
Finished == run /\ in = <<>>
Unfinished == ~(Finished /\ Len(s) = 3 /\ out = <<>>)

(* every step consumes input, so every path is consumed *)
Shrinks == [][run => Len(in') < Len(in)]_vars

(* The same by segments: drop ".", let ".." cancel the previous segment.    *)
RECURSIVE Split(_)
Split(p) == LET i == First(p, {SLASH}) IN
            IF i > Len(p) THEN <<p>> ELSE <<SubSeq(p, 1, i - 1)>> \o The({Split(q) : q \in {From(p, i + 1)}})
RECURSIVE Fold(_, _)
Fold(segs, acc) ==
    IF segs = <<>> THEN acc
    ELSE LET x == segs[1] last == Len(segs) = 1
             acc2 == IF x = <<DOT>> THEN acc
                     ELSE IF x = <<DOT, DOT>> THEN SubSeq(acc, 1, Len(acc) - 1)
                     ELSE Append(acc, x)
         IN IF last /\ x \in {<<DOT>>, <<DOT, DOT>>} THEN Append(acc2, <<>>)
            ELSE The({Fold(t, a) : t \in {Tail(segs)}, a \in {acc2}})
RECURSIVE Join(_)
Join(segs) == IF segs = <<>> THEN <<>> ELSE <<SLASH>> \o segs[1] \o Join(Tail(segs))
BySegments == (Finished /\ s # <<>> /\ s[1] = SLASH) => out = The({Join(Fold(t, <<>>)) : t \in {Tail(Split(s))}})
NoDots == Finished =>
    \A x \in {Split(out)} : \A k \in 1..Len(x) : x[k] \notin {<<DOT>>, <<DOT, DOT>>}
Idempotent == Finished => RemoveDots(out) = out /\ RemoveDots(s) = out

(* Decomposition loses nothing, and is the only one that recomposes.        *)
RoundTrip == mode = "split" => Compose(Decompose(s)) = s
Valid == mode = "split" => (IsReference(s) => CanCompose(Decompose(s)))
Unique == mode = "split" =>
    LET D == Decompose(s) IN CanCompose(D) /\ ~Ambiguous(D) /\ (D.scheme # <<>> \/ D.authority # <<>>) => Decompose(Compose(D)) = D

Base == Txt("http://h/b/c/d;p?q")
Bases == {Base, Txt("x:"), Txt("x:/y"), Txt("x://h"), Txt("x:y/z?k")}
ResolveLaws == mode = "resolve" => \A b \in Bases :
    LET R == Decompose(s) T == Transform(Decompose(b), R) v == Compose(T) IN
    /\ ~Ambiguous(T) => Decompose(v) = T
    /\ T.scheme # <<>> /\ (s = <<>> => v = Compose([Decompose(b) EXCEPT !.fragment = <<>>]))
    /\ (~Ambiguous(T) /\ T.path # <<>> /\ R.path # <<>>) => Resolve(b, v) = v
Coding == mode = "code" => /\ Decode(Encode(s, {})) = s /\ Decode(Encode(s, {47, 122})) = s
                           /\ WellEscaped(Encode(s, {})) /\ Range(Encode(s, {})) \subseteq Unreserved \cup {PCT}
                           /\ (Len(s) > 0 /\ s[1] = SLASH) => UriPath(Decompose(PathUri(s))) = s /\ CanToPath(Decompose(PathUri(s)))

(* the examples of RFC 3986, section 5.4 *)
EB == Txt("http://a/b/c/d;p?q")
ASSUME \A x \in {
    <<"g:h", "g:h">>, <<"g", "http://a/b/c/g">>, <<"./g", "http://a/b/c/g">>, <<"g/", "http://a/b/c/g/">>,
    <<"/g", "http://a/g">>, <<"//g", "http://g">>, <<"?y", "http://a/b/c/d;p?y">>, <<"g?y", "http://a/b/c/g?y">>,
    <<"#s", "http://a/b/c/d;p?q#s">>, <<"g#s", "http://a/b/c/g#s">>, <<";x", "http://a/b/c/;x">>,
    <<"", "http://a/b/c/d;p?q">>, <<".", "http://a/b/c/">>, <<"./", "http://a/b/c/">>, <<"..", "http://a/b/">>,
    <<"../", "http://a/b/">>, <<"../g", "http://a/b/g">>, <<"../..", "http://a/">>, <<"../../g", "http://a/g">>,
    <<"../../../g", "http://a/g">>, <<"/./g", "http://a/g">>, <<"/../g", "http://a/g">>, <<"g.", "http://a/b/c/g.">>,
    <<"..g", "http://a/b/c/..g">>, <<"./../g", "http://a/b/g">>, <<"./g/.", "http://a/b/c/g/">>, <<"g/./h", "http://a/b/c/g/h">>,
    <<"g/../h", "http://a/b/c/h">>, <<"g;x=1/./y", "http://a/b/c/g;x=1/y">>, <<"g;x=1/../y", "http://a/b/c/y">>,
    <<"g?y/../x", "http://a/b/c/g?y/../x">>, <<"g#s/../x", "http://a/b/c/g#s/../x">>} : Resolve(EB, Txt(x[1])) = Txt(x[2])
=============================================================================
