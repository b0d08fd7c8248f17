------------------------------- MODULE Archive -------------------------------
(***************************************************************************)
(* Unpacking an archive into a directory.  A path is a sequence of names;   *)
(* the file system Z.fs maps paths to [d |-> TRUE] or [d |-> FALSE, c |->   *)
(* content]; the target directory is Z.at.  An entry is                     *)
(*   [abs |-> name starts with a slash, segs |-> the parts between slashes, *)
(*    c |-> content, bad |-> its data cannot be read]                       *)
(* A name that ends with a slash (last part empty) is a directory's.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE Z
Dir == [d |-> TRUE, c |-> <<>>]
File(c) == [d |-> FALSE, c |-> c]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Up(p) == SubSeq(p, 1, Len(p) - 1)

IsDirName(e) == e.segs[Len(e.segs)] = ""
Nameless(e) == e.segs = <<"">> /\ ~e.abs

(* Following a relative path from a directory, part by part; the            *)
(* result is where it leads to, and every place it comes through.           *)
RECURSIVE Walk(_, _)
Walk(p, segs) == IF segs = <<>> THEN <<p>>
                 ELSE LET x == segs[1]
                          n == IF x \in {"", "."} THEN p ELSE IF x = ".." THEN Up(p) ELSE Append(p, x)
                      IN <<p>> \o Walk(n, Tail(segs))
Places(at, segs) == LET w == Walk(at, segs) IN {w[i] : i \in 1..Len(w)}
End(at, segs) == LET w == Walk(at, segs) IN w[Len(w)]
(* The path goes above the directory it started from. *)
Leaves(at, segs) == \E p \in Places(at, segs) : ~Prefix(at, p)
(* It mentions the parent directory without leaving. *)
Dotted(e) == ".." \in {e.segs[i] : i \in 1..Len(e.segs)}

IsDir(fs, p) == p \in DOMAIN fs /\ fs[p].d
Blocked(fs, S) == \E p \in S : p \in DOMAIN fs /\ ~fs[p].d
RECURSIVE MkDirs(_, _)
MkDirs(fs, S) == IF S = {} THEN fs
                 ELSE LET p == CHOOSE x \in S : TRUE IN MkDirs(IF p \in DOMAIN fs THEN fs ELSE Put(fs, p, Dir), S \ {p})

Parents(e) == SubSeq(e.segs, 1, Len(e.segs) - 1)
LastSeg(e) == e.segs[Len(e.segs)]
(* An entry that cannot be unpacked below `at`. *)
Refused(fs, at, e) ==
    \/ e.abs
    \/ Leaves(at, e.segs)
    \/ IsDirName(e) /\ Blocked(fs, Places(at, e.segs))
    \/ ~IsDirName(e) /\ \/ Blocked(fs, Places(at, Parents(e)))
                        \/ LastSeg(e) \in {".", ".."}
                        \/ IsDir(fs, End(at, e.segs))
                        \/ e.bad
Unpack1(fs, at, e) ==
    IF IsDirName(e) THEN MkDirs(fs, Places(at, e.segs))
    ELSE Put(MkDirs(fs, Places(at, Parents(e))), End(at, e.segs), File(e.c))

(* The state: not yet unpacked entries, file system, outcome. *)
Begin(fs, at, es) == [fs |-> fs, at |-> at, todo |-> es, failed |-> FALSE, may |-> FALSE]
(* one entry; entries with inner ".." may be refused even if harmless *)
Step(z) ==
    LET e == z.todo[1] IN
    IF Nameless(e) THEN [z EXCEPT !.todo = Tail(@)]
    ELSE IF Refused(z.fs, z.at, e) THEN [z EXCEPT !.failed = TRUE, !.todo = <<>>]
    ELSE [z EXCEPT !.todo = Tail(@), !.fs = Unpack1(@, z.at, e), !.may = @ \/ Dotted(e)]
RECURSIVE Finish(_)
Finish(z) == IF z.todo = <<>> THEN z ELSE CHOOSE r \in {Finish(y) : y \in {Step(z)}} : TRUE

Outside(fs, at) == {p \in DOMAIN fs : ~Prefix(at, p)}
Contained(fs, fs2, at) == /\ Outside(fs, at) = Outside(fs2, at)
                          /\ \A p \in Outside(fs, at) : fs2[p] = fs[p]
=============================================================================
