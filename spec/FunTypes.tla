------------------------------ MODULE FunTypes -----------------------------
(***************************************************************************)
(* Function types, their parameters and what an instance looks like.        *)
(*                                                                          *)
(* A function type is [params, groups]: params is a sequence of              *)
(* [ty, def, hasmin, min, hasmax, max] with ty one of PREAL, PINT, PTYPE;    *)
(* groups is a sequence of [name, cnt, ios], ios a sequence of               *)
(* [name, ty, ca, cnt].  cnt and ty are <<0, value>> or <<1, k>>, the latter *)
(* a placeholder for the value of parameter k (counted from 0).              *)
(* A parameter set P is a sequence of <<k, ty, value>>.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
PREAL == 1  PINT == 2  PTYPE == 3

Given(P, k) == {n \in DOMAIN P : P[n][1] = k}
InRange(d, x) == (d.hasmin = 1 => x >= d.min) /\ (d.hasmax = 1 => x <= d.max)
ValueOk(d, ty, x) == ty = d.ty /\ (d.ty # PTYPE => InRange(d, x))
(* every value given for a described parameter has its type and range *)
GivenOk(ft, P) ==
    \A n \in DOMAIN P : P[n][1] \in 0..Len(ft.params) - 1 => ValueOk(ft.params[P[n][1] + 1], P[n][2], P[n][3])
ParamValue(ft, P, k) ==
    IF Given(P, k) = {} THEN ft.params[k + 1].def ELSE P[CHOOSE n \in Given(P, k) : TRUE][3]
FieldOk(ft, f, ty) == f[1] = 1 => f[2] \in 0..Len(ft.params) - 1 /\ ft.params[f[2] + 1].ty = ty
Field(ft, P, f) == IF f[1] = 0 THEN f[2] ELSE ParamValue(ft, P, f[2])
FieldsOk(ft) ==
    \A g \in DOMAIN ft.groups :
        /\ FieldOk(ft, ft.groups[g].cnt, PINT)
        /\ \A i \in DOMAIN ft.groups[g].ios :
              FieldOk(ft, ft.groups[g].ios[i].cnt, PINT) /\ FieldOk(ft, ft.groups[g].ios[i].ty, PTYPE)
SubstOk(ft, P) == GivenOk(ft, P) /\ FieldsOk(ft)
(* the description of an instance *)
Describe(ft, P) ==
    [g \in DOMAIN ft.groups |->
        [name |-> ft.groups[g].name, cnt |-> Field(ft, P, ft.groups[g].cnt),
         ios |-> [i \in DOMAIN ft.groups[g].ios |->
                    LET io == ft.groups[g].ios[i] IN
                    [name |-> io.name, ty |-> Field(ft, P, io.ty), ca |-> io.ca, cnt |-> Field(ft, P, io.cnt)]]]]

Scalar(t, d) == [ty |-> t, def |-> d, hasmin |-> 0, min |-> 0, hasmax |-> 0, max |-> 0]
AtLeast(d, m) == [ty |-> PINT, def |-> d, hasmin |-> 1, min |-> m, hasmax |-> 0, max |-> 0]
IoGroup(nm, c, t, ca, d) == [name |-> nm, cnt |-> c, ios |-> <<[name |-> "", ty |-> t, ca |-> ca, cnt |-> d]>>]
(* out = offset + factor * in.  Real values are counted in sixteenths. *)
LinearType == [params |-> <<Scalar(PREAL, 0), Scalar(PREAL, 16)>>,
               groups |-> <<IoGroup("in", <<0, 1>>, <<0, 1>>, 1, <<0, 1>>), IoGroup("out", <<0, 1>>, <<0, 1>>, 2, <<0, 1>>)>>]
(* out[d] = in[1][d] + ... + in[n][d]; parameters n, type, number of components *)
SumType == [params |-> <<AtLeast(1, 1), Scalar(PTYPE, 1), AtLeast(1, 1)>>,
            groups |-> <<IoGroup("in", <<1, 0>>, <<1, 1>>, 1, <<1, 2>>), IoGroup("out", <<0, 1>>, <<1, 1>>, 2, <<1, 2>>)>>]
=============================================================================
