------------------------------ MODULE Importer ------------------------------
(***************************************************************************)
(* What importing FMUs means to the user of fmi::importer.                  *)
(*   I.file   path -> [ver, guid, c, bad]: the FMU there; c stands for all   *)
(*            it contains, bad: some entry cannot be read; ver: as given in  *)
(*            its XML, "-": not given, "none": there is no XML               *)
(*   I.fmu    identity -> [guid, ver, c, p]: loaded FMUs, p: the path from   *)
(*            which it was loaded, "" if from a directory                    *)
(*   I.obj    reference held by the user -> identity                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE I
IInit == I = [file |-> <<>>, fmu |-> <<>>, obj |-> <<>>]
IPut(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Version(s) == IF s \in {"1.0", "1.0.1"} THEN 1 ELSE IF s \in {"2.0", "2.0.3"} THEN 2 ELSE 0
Loaded == {k \in DOMAIN I.fmu : \E o \in DOMAIN I.obj : I.obj[o] = k}
ByPath(p) == {k \in Loaded : I.fmu[k].p = p}
ByGuid(g) == {k \in Loaded : I.fmu[k].guid = g}
All(c) == <<c, c, c, c>>
\* why an FMU cannot be imported, judging by its XML
Refused(q) == IF q.ver \in {"none", "-"} THEN "badfile" ELSE IF Version(q.ver) = 0 THEN "unsupported"
              ELSE IF q.guid = "-" THEN "badfile" ELSE ""
\* reference o now stands for a loaded FMU k, an old one or a new one
Refers(o, k, q) == I' = [I EXCEPT !.obj = IPut(@, o, k), !.fmu = IF k \in DOMAIN @ THEN @ ELSE IPut(@, k, q)]
Known(o, k, ver, files) == ver = I.fmu[k].ver /\ files = All(I.fmu[k].c) /\ Refers(o, k, I.fmu[k])
\* r: "ok" or why not; same: an older reference to the same object, o if none
Import(p, o, r, same, ver, files, packed) ==
    LET q == I.file[p]
        have == IF packed /\ ByPath(p) # {} THEN ByPath(p) ELSE IF Refused(q) = "" THEN ByGuid(q.guid) ELSE {} IN
    IF have # {}
    THEN /\ r = "ok" /\ same \in DOMAIN I.obj
         /\ \E k \in have : I.obj[same] = k /\ Known(o, k, ver, files)
    ELSE IF Refused(q) # ""
    THEN (r = Refused(q) \/ (q.ver = "none" /\ ~packed /\ r # "ok")) /\ UNCHANGED I
    ELSE \/ /\ packed /\ q.bad # -1 /\ r = "zip" /\ UNCHANGED I
         \* everything is as in the FMU
         \/ /\ r = "ok" /\ ver = Version(q.ver) /\ files = All(q.c)
            /\ same = o
            /\ Refers(o, o, [guid |-> q.guid, ver |-> ver, c |-> q.c, p |-> IF packed THEN p ELSE ""])
Release(o) == o \in DOMAIN I.obj /\ I' = [I EXCEPT !.obj = [y \in DOMAIN @ \ {o} |-> @[y]]]
Look(o, files) == files = All(I.fmu[I.obj[o]].c) /\ UNCHANGED I
OneEach == \A k, m \in Loaded : k # m => I.fmu[k].guid # I.fmu[m].guid
=============================================================================
