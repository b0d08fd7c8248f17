----------------------------- MODULE TSysStruct ----------------------------
EXTENDS SysStruct, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<cfg, S, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Ok == Line.ok = 1
SetOf(q) == {q[k] : k \in DOMAIN q}
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ cfg = Traces[tid].cfg /\ InitS
EntRow(e) == <<e.name, e.kind, e.ty, e.hint, SetOf(e.params)>>
ReadRow(r) == <<r[1], r[2], r[3], r[4], SetOf(r[5])>>
\* a refusal is reported as an invalid system structure
Refusal == ~Ok => Line.iss = 1
Match ==
    CASE Line.e = "addsim" -> AddSim(Line.n, Line.m, Line.h, Ok) /\ Refusal
      [] Line.e = "addfun" -> AddFun(Line.n, Line.m, Line.p, Ok) /\ Refusal
      [] Line.e = "conn"   -> Line.vc = ConnectionVerdict(Line.s, Line.t) /\ Connect(Line.s, Line.t, Ok) /\ Refusal
      [] Line.e = "val"    -> Line.vc = ValueVerdict(Line.v, Line.ty) /\ AddValue(Line.v, Line.ty, Line.x, Ok) /\ Refusal
      [] Line.e = "getvar" -> /\ Ok = SimVarExists(Line.v) /\ Refusal
                              /\ Ok => LET d == SimVar(Line.v) IN Line.d = <<d.name, d.ty, d.ca, d.vb>>
                              /\ UNCHANGED svars
      [] Line.e = "getio"  -> /\ Ok = FunVarExists(Line.v) /\ Refusal
                              /\ Ok => LET p == CHOOSE p \in IoIdx(Line.v) : TRUE
                                           d == FunVar(Line.v)
                                       IN Line.d = <<p[1] - 1, p[2] - 1, d.name, d.ty, d.ca, d.cnt>>
                              /\ UNCHANGED svars
      [] Line.e = "find"   -> /\ Ok = (EntIdx(Line.n) # {})
                              /\ Ok => ReadRow(Line.row) = EntRow(Ent(Line.n))
                              /\ UNCHANGED svars
      [] Line.e = "ents"   -> /\ Len(Line.rows) = Len(S.ents)
                              /\ {ReadRow(Line.rows[k]) : k \in DOMAIN Line.rows} = {EntRow(S.ents[k]) : k \in DOMAIN S.ents}
                              /\ UNCHANGED svars
      [] Line.e = "conns"  -> Len(Line.rows) = Cardinality(S.conns) /\ SetOf(Line.rows) = S.conns /\ UNCHANGED svars
      [] Line.e = "vals"   -> Len(Line.rows) = Cardinality(S.vals) /\ SetOf(Line.rows) = S.vals /\ UNCHANGED svars
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
