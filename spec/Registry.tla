------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registries behind Eddy.store and Eddy.discarded: any eddy can be     *)
(* stored or discarded, and leaving (exit) forgets everything.              *)
(***************************************************************************)
EXTENDS RecordOps, Json
CONSTANTS EDDIES, MAXOPS, EMIT
VARIABLES stored, thrown, hist
vars == <<stored, thrown, hist>>
Size == [e \in EDDIES |-> e + 1]
Reasons == {"area", "eccentricity"}
Init == stored = <<>> /\ thrown = <<>> /\ hist = <<>>
Store(e) == stored' = Append(stored, e) /\ hist' = Append(hist, <<"store", e, "">>) /\ UNCHANGED thrown
Discard(e, r) == thrown' = Append(thrown, <<e, r>>) /\ hist' = Append(hist, <<"discard", e, r>>) /\ UNCHANGED stored
Exit(e) == stored' = <<>> /\ thrown' = <<>> /\ hist' = Append(hist, <<"exit", e, "">>)
Next == Len(hist) < MAXOPS /\ \E e \in EDDIES : Store(e) \/ (\E r \in Reasons : Discard(e, r)) \/ Exit(e)
Spec == Init /\ [][Next]_vars
T == Table(stored, Size)
(* Identifiers are consecutive from zero, each eddy has all of its rows, in order. *)
Consecutive == {T[k][1] : k \in DOMAIN T} = 0..(Len(stored) - 1)
Ordered == \A k \in 1..(Len(T) - 1) : (T[k + 1][1] = T[k][1] /\ T[k + 1][2] = T[k][2] + 1) \/ (T[k + 1][1] = T[k][1] + 1 /\ T[k + 1][2] = 0)
Complete == \A n \in DOMAIN stored : Cardinality({k \in DOMAIN T : T[k][1] = n - 1}) = Size[stored[n]]
(* Storing adds rows at the end, and discarding changes no stored eddy. *)
Grows == [][stored' = <<>> \/ SubSeq(stored', 1, Len(stored)) = stored]_vars
Emit == (EMIT /\ Len(hist) = MAXOPS) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
