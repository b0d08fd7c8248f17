------------------------------ MODULE TempCache ------------------------------
(***************************************************************************)
(* temporary_file_cache: subdirectories by key, handles to them.            *)
(* Keys and files are small numbers; a path is a sequence of names.         *)
(*   C.dir      key -> path of its directory, for the keys that exist       *)
(*   C.data     key -> (file -> value)                                      *)
(*   C.h        handle -> [k, m] with m \in {"rw", "ro"}                     *)
(*   C.alive    the cache object exists                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE C
InitC == C = [dir |-> <<>>, data |-> <<>>, h |-> <<>>, alive |-> TRUE]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Handles(k, m) == {x \in DOMAIN C.h : C.h[x].k = k /\ C.h[x].m = m}

CanRw(k) == Handles(k, "rw") = {} /\ Handles(k, "ro") = {}
CanRo(k) == k \in DOMAIN C.dir /\ Handles(k, "rw") = {}

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* p is below the root of the cache, and neither inside nor around another key's directory
GoodDir(k, p, root) == /\ Prefix(root, p) /\ Len(p) > Len(root)
                       /\ \A x \in DOMAIN C.dir \ {k} : ~Prefix(C.dir[x], p) /\ ~Prefix(p, C.dir[x])
GetRw(k, h, ok, p, root) ==
    /\ C.alive /\ h \notin DOMAIN C.h
    /\ ok = CanRw(k)
    /\ IF ok THEN /\ GoodDir(k, p, root) /\ (k \in DOMAIN C.dir => C.dir[k] = p)
                  /\ C' = [C EXCEPT !.dir = Put(@, k, p), !.h = Put(@, h, [k |-> k, m |-> "rw"]),
                                    !.data = IF k \in DOMAIN @ THEN @ ELSE Put(@, k, <<>>)]
       ELSE C' = C
GetRo(k, h, ok, p, root) ==
    /\ C.alive /\ h \notin DOMAIN C.h
    /\ ok = CanRo(k)
    /\ IF ok THEN C.dir[k] = p /\ C' = [C EXCEPT !.h = Put(@, h, [k |-> k, m |-> "ro"])]
       ELSE C' = C
Release(h) == h \in DOMAIN C.h /\ C' = [C EXCEPT !.h = Del(@, h)]
Write(h, f, v) == /\ h \in DOMAIN C.h /\ C.h[h].m = "rw"
                  /\ C' = [C EXCEPT !.data[C.h[h].k] = Put(@, f, v)]
\* what a holder finds
Read(h, S) == /\ h \in DOMAIN C.h
              /\ S = {<<f, C.data[C.h[h].k][f]>> : f \in DOMAIN C.data[C.h[h].k]}
              /\ UNCHANGED C
Destroy == C.alive /\ C' = [C EXCEPT !.alive = FALSE]
\* nothing is left once the cache and all its handles are gone
Left(n) == (n = 0) = (~C.alive /\ C.h = <<>>) /\ UNCHANGED C

Exclusive == \A x, y \in DOMAIN C.h : x # y /\ C.h[x].k = C.h[y].k => C.h[x].m = "ro" /\ C.h[y].m = "ro"
Existing == \A x \in DOMAIN C.h : C.h[x].k \in DOMAIN C.dir
Apart == \A k, l \in DOMAIN C.dir : k # l => ~Prefix(C.dir[k], C.dir[l])
=============================================================================
