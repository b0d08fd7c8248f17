------------------------------ MODULE MCArchive ------------------------------
(* Unpacks all archives of up to MaxEntries entries with names of up to      *)
(* MaxSegs parts.  Guarded = FALSE: leaves the target when the name says so. *)
EXTENDS Archive, TLC
CONSTANTS MaxEntries, MaxSegs, Guarded
VARIABLES start, all
vars == <<Z, start, all>>
Parts == {"a", "b", ".", "..", ""}
Names == {s \in UNION {[1..k -> Parts] : k \in 1..MaxSegs} : s # <<"">>}
At == <<"o", "t">>
FS0 == (<<>> :> Dir) @@ (<<"o">> :> Dir) @@ (<<"o", "t">> :> Dir) @@ (<<"o", "a">> :> File(0)) @@ (<<"b">> :> Dir)
Init == start = FS0 /\ all = <<>> /\ Z = Begin(FS0, At, <<>>)
MStep(e) ==
    /\ ~Z.failed /\ Len(all) < MaxEntries
    /\ all' = Append(all, e) /\ UNCHANGED start
    /\ LET z == [Z EXCEPT !.todo = <<e>>] IN
       Z' = IF Guarded THEN Step(z)
            ELSE IF Nameless(e) \/ e.abs \/ Blocked(Z.fs, Places(At, Parents(e))) \/ IsDir(Z.fs, End(At, e.segs)) \/ LastSeg(e) \in {"", ".", ".."} THEN Z
            ELSE [Z EXCEPT !.fs = Unpack1(@, At, e)]
Next == \E s \in Names, a \in BOOLEAN : MStep([abs |-> a, segs |-> s, c |-> Len(all) + 1, bad |-> FALSE])
Spec == Init /\ [][Next]_vars
Stays == Contained(start, Z.fs, At)
WellFormedFs == \A p \in DOMAIN Z.fs : p # <<>> => IsDir(Z.fs, Up(p))
(* what is below the target comes from the archive, the latest entry winning *)
FromArchive == \A p \in DOMAIN Z.fs : (Prefix(At, p) /\ p # At) =>
    IF Z.fs[p].d THEN \E i \in 1..Len(all) : p \in Places(At, all[i].segs)
    ELSE /\ Z.fs[p].c \in 1..Len(all) /\ End(At, all[Z.fs[p].c].segs) = p
         /\ \A i \in Z.fs[p].c + 1..Len(all) : End(At, all[i].segs) = p => (Z.failed /\ i = Len(all))
Complete == ~Z.failed => \A i \in 1..Len(all) :
    Nameless(all[i]) \/ End(At, all[i].segs) \in DOMAIN Z.fs
=============================================================================
