------------------------------- MODULE TArchive ------------------------------
(* Archives unpacked by the code.  The target is <<"t">>; the file system is *)
(* listed from the directory above it.                                       *)
EXTENDS Archive, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<Z, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Cfg == Traces[tid].cfg
N == Len(Cfg.entries)
Entry(i) == LET e == Cfg.entries[i] IN [abs |-> e.abs = 1, segs |-> e.segs, c |-> e.c, bad |-> e.bad = 1]
Entries == [i \in 1..N |-> Entry(i)]
At == <<"t">>
\* a listing: [p, d, c]
FsOf(q) == [p \in {q[i].p : i \in 1..Len(q)} \cup {<<>>} |->
              IF p = <<>> THEN Dir ELSE LET x == q[CHOOSE i \in 1..Len(q) : q[i].p = p] IN IF x.d = 1 THEN Dir ELSE File(x.c)]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ Z = Begin((<<>> :> Dir), At, <<>>)
(* directories that inner ".." may leave behind or not *)
Passed == UNION {Places(At, Entries[i].segs) : i \in {j \in 1..N : Dotted(Entries[j])}}
Same(f, g) == /\ \A p \in DOMAIN f : (p \in DOMAIN g /\ f[p] = g[p]) \/ (f[p].d /\ p \in Passed)
              /\ \A p \in DOMAIN g : p \in DOMAIN f
Match ==
    CASE Line.e = "fs" -> Z' = [Z EXCEPT !.fs = FsOf(Line.q)]
      [] Line.e = "extract" ->
             \E z \in {IF IsDir(Z.fs, At) THEN Finish(Begin(Z.fs, At, Entries)) ELSE [Begin(Z.fs, At, <<>>) EXCEPT !.failed = TRUE]}, g \in {FsOf(Line.q)} :
                /\ Contained(Z.fs, g, At)
                /\ z.failed => Line.ok = 0
                /\ (~z.failed /\ ~z.may) => Line.ok = 1
                /\ Line.ok = 1 => Same(z.fs, g)
                /\ Z' = [Z EXCEPT !.fs = g]
      [] Line.e = "open" -> Line.ok = Cfg.valid /\ UNCHANGED Z
      [] Line.e = "count" -> Line.n = N /\ UNCHANGED Z
      [] Line.e = "name" -> Line.s = Cfg.entries[Line.i + 1].name /\ Line.d = Cfg.entries[Line.i + 1].isdir /\ UNCHANGED Z
      [] Line.e = "find" ->
             /\ IF Line.i = -1 THEN \A i \in 1..N : Cfg.entries[i].name # Line.s
                ELSE Line.i + 1 \in 1..N /\ Cfg.entries[Line.i + 1].name = Line.s
             /\ UNCHANGED Z
      [] Line.e = "to" ->  \* one entry, by its last name only
             \E g \in {FsOf(Line.q)} : LET e == Entries[Line.i + 1] p == Append(At, LastSeg(e)) can == LastSeg(e) \notin {"", ".", ".."} /\ ~e.bad /\ IsDir(Z.fs, At) /\ ~IsDir(Z.fs, p) IN
                /\ (Line.ok = 1) = can
                /\ Contained(Z.fs, g, At)
                /\ Line.ok = 1 => Line.p = p /\ g = Put(Z.fs, p, File(e.c))
                /\ Z' = [Z EXCEPT !.fs = g]
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
