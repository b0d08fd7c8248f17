-------------------------------- MODULE Uri --------------------------------
(***************************************************************************)
(* URI references (RFC 3986) as sequences of octets: decomposition into    *)
(* components, recomposition, resolution against a base with the path      *)
(* normalisation of section 5.2.4 as the two-buffer transition system the  *)
(* RFC describes, percent coding, and the file URI conversions.            *)
(* An optional component is <<>> or <<value>>.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SLASH == 47  COLON == 58  QM == 63  HASH == 35  DOT == 46  PCT == 37
Upper == 65..90
Lower == 97..122
Alpha == Upper \cup Lower
Digit == 48..57
Hex == Digit \cup 65..70 \cup 97..102
Unreserved == Alpha \cup Digit \cup {45, 95, 46, 126}
SubDelims == {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
SchemeChar == Alpha \cup Digit \cup {43, 45, 46}
PChar == Unreserved \cup SubDelims \cup {COLON, 64}

Range(s) == {s[i] : i \in 1..Len(s)}
From(s, i) == SubSeq(s, i, Len(s))
(* position of the first octet of s that is in C, or Len(s) + 1 *)
First(s, C) == LET P == {i \in 1..Len(s) : s[i] \in C} IN
               IF P = {} THEN Len(s) + 1 ELSE CHOOSE i \in P : \A j \in P : i <= j
Last(s, C) == LET P == {i \in 1..Len(s) : s[i] \in C} IN
              IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i >= j
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(***************************** decomposition *******************************)
(* RFC 3986, appendix B *)
Decompose(s) ==
    LET i == First(s, {COLON, SLASH, QM, HASH})
        hasScheme == i > 1 /\ i <= Len(s) /\ s[i] = COLON
        r1 == IF hasScheme THEN From(s, i + 1) ELSE s
        hasAuth == Starts(r1, <<SLASH, SLASH>>)
        r2 == IF hasAuth THEN From(r1, 3) ELSE r1
        a == IF hasAuth THEN First(r2, {SLASH, QM, HASH}) ELSE 1
        r3 == From(r2, a)
        p == First(r3, {QM, HASH})
        r4 == From(r3, p)
        hasQuery == Len(r4) > 0 /\ r4[1] = QM
        q == First(r4, {HASH})
        r5 == IF hasQuery THEN From(r4, q) ELSE r4
    IN [scheme |-> IF hasScheme THEN <<SubSeq(s, 1, i - 1)>> ELSE <<>>,
        authority |-> IF hasAuth THEN <<SubSeq(r2, 1, a - 1)>> ELSE <<>>,
        path |-> SubSeq(r3, 1, p - 1),
        query |-> IF hasQuery THEN <<SubSeq(r4, 2, q - 1)>> ELSE <<>>,
        fragment |-> IF Len(r5) > 0 THEN <<From(r5, 2)>> ELSE <<>>]

(* RFC 3986, section 5.3 *)
Compose(D) ==
    (IF D.scheme # <<>> THEN D.scheme[1] \o <<COLON>> ELSE <<>>) \o
    (IF D.authority # <<>> THEN <<SLASH, SLASH>> \o D.authority[1] ELSE <<>>) \o
    D.path \o
    (IF D.query # <<>> THEN <<QM>> \o D.query[1] ELSE <<>>) \o
    (IF D.fragment # <<>> THEN <<HASH>> \o D.fragment[1] ELSE <<>>)

(* Escapes are complete and all other octets are in C. *)
Escaped(s, C) == \A i \in 1..Len(s) :
    \/ s[i] \in C
    \/ s[i] = PCT /\ i + 2 <= Len(s) /\ s[i + 1] \in Hex /\ s[i + 2] \in Hex
(* the grammar of a URI reference; authorities are not looked into *)
IsReference(s) ==
    LET D == Decompose(s) IN
    /\ D.scheme # <<>> => D.scheme[1][1] \in Alpha /\ Range(D.scheme[1]) \subseteq SchemeChar
    /\ Escaped(D.path, PChar \cup {SLASH})
    /\ D.scheme = <<>> /\ D.authority = <<>> =>
           COLON \notin Range(SubSeq(D.path, 1, First(D.path, {SLASH}) - 1))
    /\ D.query # <<>> => Escaped(D.query[1], PChar \cup {SLASH, QM})
    /\ D.fragment # <<>> => Escaped(D.fragment[1], PChar \cup {SLASH, QM})

(* The octets that delimit components may not occur in them. *)
CanCompose(D) ==
    /\ D.scheme # <<>> => D.scheme[1] # <<>> /\ Range(D.scheme[1]) \subseteq SchemeChar
    /\ D.authority # <<>> => /\ Range(D.authority[1]) \cap {SLASH, QM, HASH} = {}
                             /\ D.path # <<>> => D.path[1] = SLASH
    /\ Range(D.path) \cap {QM, HASH} = {}
    /\ D.query # <<>> => HASH \notin Range(D.query[1])

(******************************* resolution ********************************)
(* One step of remove_dot_segments (section 5.2.4) on input and output.    *)
DropLast(out) == LET i == Last(out, {SLASH}) IN SubSeq(out, 1, (IF i = 0 THEN 1 ELSE i) - 1)
DotStep(in, out) ==
    IF Starts(in, <<DOT, DOT, SLASH>>) THEN <<From(in, 4), out>>                                     \* A
    ELSE IF Starts(in, <<DOT, SLASH>>) THEN <<From(in, 3), out>>
    ELSE IF Starts(in, <<SLASH, DOT, SLASH>>) THEN <<<<SLASH>> \o From(in, 4), out>>                  \* B
    ELSE IF in = <<SLASH, DOT>> THEN <<<<SLASH>>, out>>
    ELSE IF Starts(in, <<SLASH, DOT, DOT, SLASH>>) THEN <<<<SLASH>> \o From(in, 5), DropLast(out)>>   \* C
    ELSE IF in = <<SLASH, DOT, DOT>> THEN <<<<SLASH>>, DropLast(out)>>
    ELSE IF in = <<DOT>> \/ in = <<DOT, DOT>> THEN <<<<>>, out>>                                      \* D
    ELSE LET i == 1 + First(From(in, 2), {SLASH}) IN <<From(in, i), out \o SubSeq(in, 1, i - 1)>>     \* E
(* (binding n by a set makes TLC evaluate each step once) *)
The(S) == CHOOSE x \in S : TRUE
RECURSIVE Run(_)
Run(p) == IF p[1] = <<>> THEN p[2] ELSE The({Run(n) : n \in {DotStep(p[1], p[2])}})
RemoveDots(p) == Run(<<p, <<>>>>)

Merge(B, p) == IF B.authority # <<>> /\ B.path = <<>> THEN <<SLASH>> \o p
               ELSE SubSeq(B.path, 1, Last(B.path, {SLASH})) \o p

(* section 5.2.2; B has a scheme *)
Transform(B, R) ==
    LET rel == R.scheme = <<>> /\ R.authority = <<>> IN
    [scheme |-> IF R.scheme # <<>> THEN R.scheme ELSE B.scheme,
     authority |-> IF rel THEN B.authority ELSE R.authority,
     path |-> IF ~rel THEN RemoveDots(R.path)
              ELSE IF R.path = <<>> THEN B.path
              ELSE IF R.path[1] = SLASH THEN RemoveDots(R.path)
              ELSE RemoveDots(Merge(B, R.path)),
     query |-> IF rel /\ R.path = <<>> /\ R.query = <<>> THEN B.query ELSE R.query,
     fragment |-> R.fragment]
Resolve(b, r) == The({Compose(T) : T \in {Transform(B, R) : B \in {Decompose(b)}, R \in {Decompose(r)}}})
(* Recomposing is ambiguous when a path without authority begins with "//". *)
Ambiguous(D) == D.authority = <<>> /\ Starts(D.path, <<SLASH, SLASH>>)

(****************************** percent coding *****************************)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
RECURSIVE Encode(_, _), Decode(_)
Encode(s, keep) ==
    IF s = <<>> THEN <<>>
    ELSE (IF s[1] \in Unreserved \cup keep THEN <<s[1]>> ELSE <<PCT, HexDigit(s[1] \div 16), HexDigit(s[1] % 16)>>)
         \o Encode(Tail(s), keep)
WellEscaped(s) == Escaped(s, 0..255 \ {PCT})
Decode(s) ==
    IF s = <<>> THEN <<>>
    ELSE IF s[1] = PCT THEN <<HexVal(s[2]) * 16 + HexVal(s[3])>> \o Decode(From(s, 4))
    ELSE <<s[1]>> \o Decode(Tail(s))
EncodeOpt(o, keep) == IF o = <<>> THEN o ELSE <<Encode(o[1], keep)>>
EncodeAll(D) ==
    [scheme |-> EncodeOpt(D.scheme, {43}), authority |-> EncodeOpt(D.authority, {64, 58, 43}),
     path |-> Encode(D.path, {47, 43}), query |-> EncodeOpt(D.query, {61, 38, 59, 47, 58, 43}),
     fragment |-> EncodeOpt(D.fragment, {})]

(***************************** file conversions ****************************)
FILE == <<102, 105, 108, 101>>
LOCALHOST == <<108, 111, 99, 97, 108, 104, 111, 115, 116>>
PathUri(p) == IF p = <<>> THEN FILE \o <<COLON>>
              ELSE FILE \o <<COLON, SLASH, SLASH>> \o Encode(p, {47, 43})
CanToPath(D) == D.scheme = <<FILE>> /\ D.authority \in {<<<<>>>>, <<LOCALHOST>>}
UriPath(D) == Decode(D.path)
=============================================================================
