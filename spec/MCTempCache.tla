----------------------------- MODULE MCTempCache -----------------------------
(* Exploration of TempCache together with the bookkeeping by weak           *)
(* references that the implementation uses: one per mode and key.           *)
(* Forget = TRUE: a read-only request forgets earlier read-only handles.    *)
EXTENDS TempCache, TLC
CONSTANTS Keys, MaxH, MaxOps, Forget
VARIABLES own, next, n
vars == <<C, own, next, n>>
\* own[k]: handles the weak references stand for, <<>> if never granted
Root == <<"r">>
Path(k) == <<"r", k>>
Init == InitC /\ own = [k \in Keys |-> [rw |-> {}, ro |-> {}]] /\ next = 1 /\ n = 0
Live(S) == S \cap DOMAIN C.h
ImplRw(k) == Live(own[k].rw) = {} /\ Live(own[k].ro) = {}
ImplRo(k) == k \in DOMAIN C.dir /\ Live(own[k].rw) = {}
Tick == n < MaxOps /\ n' = n + 1
MRw(k) == /\ Tick /\ next <= MaxH /\ GetRw(k, next, ImplRw(k), Path(k), Root)
          /\ own' = IF ImplRw(k) THEN [own EXCEPT ![k].rw = {next}] ELSE own
          /\ next' = IF ImplRw(k) THEN next + 1 ELSE next
MRo(k) == /\ Tick /\ next <= MaxH /\ GetRo(k, next, ImplRo(k), Path(k), Root)
          /\ own' = IF ImplRo(k) THEN [own EXCEPT ![k].ro = IF Forget THEN {next} ELSE @ \cup {next}] ELSE own
          /\ next' = IF ImplRo(k) THEN next + 1 ELSE next
MRelease == Tick /\ \E h \in DOMAIN C.h : Release(h) /\ UNCHANGED <<own, next>>
MWrite == Tick /\ \E h \in DOMAIN C.h : Write(h, 1, n) /\ UNCHANGED <<own, next>>
MDestroy == Tick /\ Destroy /\ UNCHANGED <<own, next>>
Next == (\E k \in Keys : MRw(k) \/ MRo(k)) \/ MRelease \/ MWrite \/ MDestroy
Spec == Init /\ [][Next]_vars
\* the bookkeeping decides as the specification does
Agree == \A k \in Keys : C.alive => ImplRw(k) = CanRw(k) /\ ImplRo(k) = CanRo(k)
\* data only changes by writing
Stable == [][\A k \in DOMAIN C.data : C'.data[k] # C.data[k] => \E h \in DOMAIN C.h : C.h[h] = [k |-> k, m |-> "rw"]]_vars
=============================================================================
