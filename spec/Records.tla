------------------------------ MODULE Records -------------------------------
(* Every selection of properties; the columns of two never mix. *)
EXTENDS RecordOps, Json
CONSTANT EMIT
VARIABLE sel
Init == sel \in SUBSET Properties
Next == UNCHANGED sel
Spec == Init /\ [][Next]_sel
Full == [p \in Properties |-> IF p = "contour" THEN <<<<1, 2>>, <<3, 4>>, <<5, 6>>>> ELSE [n \in DOMAIN ColumnsOf(p) |-> n]]
Disjoint == \A p, q \in sel : p # q => Range(ColumnsOf(p)) \cap Range(ColumnsOf(q)) = {}
(* As many columns as values, and each can be read back. *)
Readable == \A p \in sel : \A n \in DOMAIN ColumnsOf(p) : Cell(sel, Full, ColumnsOf(p)[n]) = Values(Full, p, n)
Emit == EMIT => PrintT(<<"HIST", ToJson(sel)>>)
=============================================================================
