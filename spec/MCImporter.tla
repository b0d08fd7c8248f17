----------------------------- MODULE MCImporter -----------------------------
(* The importer's way of unpacking into a persistent cache, entry by entry,  *)
(* with the process dying anywhere and entries that cannot be read.          *)
(* Mark = "last": a mark is written after everything else (as implemented);  *)
(* Mark = "xml": the XML, entry Xml, is taken for the mark.                  *)
EXTENDS Importer, TLC
CONSTANTS Paths, Guids, Entries, Xml, MaxOps, Mark
VARIABLES dir, t, run, n, next
\* dir: guid -> [e: entry -> content (0: not there), m: time of the mark, 0: none]
\* t: time;  I.file[p].t: time of the file;  run: the import under way
vars == <<I, dir, t, run, n, next>>
Idle == [p |-> ""]
Init == /\ IInit /\ t = 1 /\ n = 0 /\ next = 1 /\ run = Idle
        /\ dir = [g \in Guids |-> [e |-> [x \in 1..Entries |-> 0], m |-> 0, xt |-> 0]]
Tick == n < MaxOps /\ n' = n + 1
MWrite == /\ Tick /\ run = Idle /\ t' = t + 1
          /\ \E p \in Paths, g \in Guids, b \in {-1} \cup 1..Entries :
               I' = [I EXCEPT !.file = IPut(@, p, [ver |-> "2.0", guid |-> g, c |-> t, bad |-> b, t |-> t])]
          /\ UNCHANGED <<dir, run, next>>
Stamp(g) == IF Mark = "last" THEN dir[g].m ELSE IF dir[g].e[Xml] = 0 THEN 0 ELSE dir[g].xt
MImport == /\ Tick /\ run = Idle /\ UNCHANGED <<t, next>>
           /\ \E p \in DOMAIN I.file :
                LET q == I.file[p] IN
                /\ ByPath(p) = {} /\ ByGuid(q.guid) = {}
                \* other FMUs do not have this GUID, unless they are the same
                /\ \A x \in DOMAIN I.file \ {p} : I.file[x].guid # q.guid
                /\ LET g == q.guid old == Stamp(g) < q.t \/ Stamp(g) = 0 IN
                   /\ run' = [p |-> p, k |-> IF old THEN 1 ELSE Entries + 2]
                   /\ dir' = IF old /\ Mark = "last" THEN [dir EXCEPT ![g].m = 0] ELSE dir
                   /\ UNCHANGED I
MStep == /\ run # Idle /\ run.k <= Entries + 1 /\ t' = t + 1 /\ UNCHANGED <<n, next>>
         /\ LET q == I.file[run.p] g == q.guid IN
            IF run.k = Entries + 1
            THEN dir' = [dir EXCEPT ![g].m = t] /\ run' = [run EXCEPT !.k = @ + 1] /\ UNCHANGED I
            ELSE IF q.bad = run.k
            THEN \* the failure is reported; with Mark = "xml" the XML is removed
                 /\ dir' = IF Mark = "xml" THEN [dir EXCEPT ![g].e[Xml] = 0] ELSE dir
                 /\ run' = Idle /\ UNCHANGED I
            ELSE /\ dir' = [dir EXCEPT ![g].e[run.k] = q.c, ![g].xt = IF run.k = Xml THEN t ELSE @]
                 /\ run' = [run EXCEPT !.k = @ + 1] /\ UNCHANGED I
MFinish == /\ run # Idle /\ run.k = Entries + 2 /\ UNCHANGED <<t, n, dir>>
           /\ LET q == I.file[run.p] IN Refers(next, next, [guid |-> q.guid, ver |-> 2, c |-> q.c, p |-> run.p])
           /\ next' = next + 1 /\ run' = Idle
MCrash == /\ Tick /\ run' = Idle /\ UNCHANGED <<dir, t, next>>
          /\ I' = [I EXCEPT !.obj = <<>>]
MRelease == /\ Tick /\ run = Idle /\ UNCHANGED <<dir, t, run, next>> /\ \E o \in DOMAIN I.obj : Release(o)
Next == MWrite \/ MImport \/ MStep \/ MFinish \/ MCrash \/ MRelease
Spec == Init /\ [][Next]_vars
\* whoever holds an FMU finds all of what it contained when it was imported
Whole == \A k \in Loaded : \A x \in 1..Entries : dir[I.fmu[k].guid].e[x] = I.fmu[k].c
=============================================================================
