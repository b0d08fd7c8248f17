----------------------------- MODULE TFunction -----------------------------
EXTENDS Function, TLC, Json, IOUtils
VARIABLES tid, l
tvars == <<F, tid, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
Line == Ev[l]
Ok == Line.ok = 1
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ F = None
Match ==
    CASE Line.e = "inst"   -> Inst(Line.k, Line.p, Ok)
      [] Line.e = "linear" -> MakeLinear(Line.off, Line.fac)
      [] Line.e = "sum"    -> MakeSum(Line.ty, Line.n, Line.dim, Ok)
      [] Line.e = "set"    -> Set(Line.ty, Line.r, Line.x, Ok)
      [] Line.e = "get"    -> Get(Line.ty, Line.r, Line.x, Ok)
      [] Line.e = "calc"   -> Calculate
      [] Line.e = "desc"   -> Line.d = Description(F.kind) /\ UNCHANGED F
      \* the function type's own description
      [] Line.e = "type"   -> Line.d = TypeOf(Line.k) /\ Line.names = (IF Line.k = 1 THEN <<"offset", "factor">> ELSE <<"inputCount", "numericType", "dimension">>) /\ UNCHANGED F
      \* substitute_function_parameters on an arbitrary type
      [] Line.e = "subst"  -> /\ Ok = SubstOk(Line.ft, Line.p)
                              /\ Ok => Line.d = Describe(Line.ft, Line.p)
                              /\ UNCHANGED F
      \* get_function_parameter on an arbitrary type
      [] Line.e = "param"  -> /\ Ok = \A n \in Given(Line.p, Line.k) : ValueOk(Line.ft.params[Line.k + 1], Line.p[n][2], Line.p[n][3])
                              /\ Ok => Line.x = ParamValue(Line.ft, Line.p, Line.k)
                              /\ UNCHANGED F
      [] OTHER -> FALSE
Done == l = Len(Ev) + 1 /\ UNCHANGED tvars
TNext == (l <= Len(Ev) /\ Match /\ l' = l + 1 /\ UNCHANGED tid) \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
