------------------------------- MODULE Coords -------------------------------
(* All layouts of a small dataset: names, order of dimensions, coordinates. *)
EXTENDS CoordsOps, Json
CONSTANTS XNAMES, YNAMES, TNAMES, ENAMES, KINDS, EMIT
VARIABLE L

Perms(S) == {f \in [1..Cardinality(S) -> S] : \A a, b \in DOMAIN f : a # b => f[a] # f[b]}
Some(n) == IF n = "" THEN {} ELSE {n}
DimSets == {Some(x) \cup Some(y) \cup Some(t) \cup Some(e) : x \in XNAMES, y \in YNAMES, t \in TNAMES, e \in ENAMES}
(* Names by themselves. *)
Names == {[dims |-> d, vars |-> <<>>, extra |-> IF \E n \in Range(d) : n = "depth" THEN 1 ELSE IF \E n \in Range(d) : n = "ensemble" THEN 2 ELSE 0] :
            d \in UNION {Perms(S) : S \in DimSets}}
(* Data variables with coordinates, in any order. *)
VarPairs == {<<"lon", "lat">>, <<"nav_lon", "nav_lat">>, <<"lat", "lon">>, <<"x", "y">>}
WithVars == {[dims |-> d, vars |-> v, extra |-> 0] :
               d \in UNION {Perms(S) : S \in {{"longitude", "latitude"}, {"longitude", "latitude", "time"}, {"i", "latitude", "t"}}},
               v \in {<<[name |-> p[1], kind |-> k1], [name |-> p[2], kind |-> k2]>> : p \in VarPairs, k1 \in KINDS, k2 \in KINDS}
                     \cup {<<[name |-> n, kind |-> k]>> : n \in {"lon", "nav_lat", "y"}, k \in KINDS}}
WithXY == {[dims |-> d, vars |-> v, extra |-> 0] :
               d \in UNION {Perms(S) : S \in {{"x", "y"}, {"y", "x", "time_counter"}}},
               v \in {<<[name |-> p[1], kind |-> k1], [name |-> p[2], kind |-> k2]>> : p \in {<<"lon", "lat">>, <<"latitude", "longitude">>, <<"nav_lon", "nav_lat">>}, k1 \in KINDS, k2 \in KINDS}}
Init == L \in Names \cup WithVars \cup WithXY
Next == UNCHANGED L
Spec == Init /\ [][Next]_L

TypeOk == Source(L) \in {"dims", "vectors", "matrices", "none", "open"}
(* The order of storage does not matter, nor does the order of the variables. *)
Reorder(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
OrderFree == LET M == [L EXCEPT !.dims = Reorder(L.dims), !.vars = Reorder(L.vars)] IN
             Source(M) = Source(L) /\ (Source(L) \notin {"none", "open"} => GridX(M) = GridX(L) /\ GridY(M) = GridY(L) /\ Field(M, 1) = Field(L, 1))
(* No dimension has two roles in these layouts, and what is rejected lacks something. *)
Explained == Source(L) = "none" =>
  \/ L.extra = 2 \/ DimOf(L.dims, "x") = "" \/ DimOf(L.dims, "y") = ""
  \/ Len(L.vars) = 2 /\ {L.vars[1].kind, L.vars[2].kind} \notin SUBSET {"1d"} /\ {L.vars[1].kind, L.vars[2].kind} \notin SUBSET {"yx", "xy"}
Unambiguous == \A a, b \in DOMAIN L.dims : a # b /\ RoleDim(L.dims[a]) = RoleDim(L.dims[b]) => RoleDim(L.dims[a]) = "none"
Emit == EMIT => PrintT(<<"HIST", ToJson([dims |-> L.dims, vars |-> L.vars, extra |-> L.extra])>>)
=============================================================================
