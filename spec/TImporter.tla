------------------------------ MODULE TImporter ------------------------------
(* Recorded runs of fmi::importer.                                           *)
EXTENDS Importer, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<I, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ IInit
OnDisk(b) == I' = [I EXCEPT !.file = IPut(@, Line.p, [ver |-> Line.ver, guid |-> Line.guid, c |-> Line.c, bad |-> b])]
Imported(packed) == IF Line.r = "ok" THEN Import(Line.p, Line.o, "ok", Line.same, Line.ver, Line.files, packed)
                    ELSE Import(Line.p, Line.o, Line.r, 0, 0, <<>>, packed)
Match ==
    CASE Line.e = "file" -> OnDisk(Line.bad)
      [] Line.e = "dir" -> OnDisk(-1)
      [] Line.e = "import" -> Imported(TRUE)
      [] Line.e = "importdir" -> Imported(FALSE)
      [] Line.e = "look" -> Look(Line.o, Line.files)
      [] Line.e = "release" -> Release(Line.o)
      [] Line.e = "crashed" -> Line.st \in {77, 78, 79} /\ UNCHANGED I
      [] Line.e = "reopen" -> I' = [I EXCEPT !.obj = <<>>]
      [] Line.e = "over" -> Line.live = 0 /\ UNCHANGED I
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
