----------------------------- MODULE TraceCoords -----------------------------
(* Judges how the code read each layout. *)
EXTENDS CoordsOps, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
If(b, n) == IF b THEN {n} ELSE {}
(* refused: rejected with an error when opened or when tracked; x, y, field: what was read. *)
Violations(c) ==
  LET src == Source(c.layout) IN
  IF src = "open" THEN {}
  ELSE IF src = "none" THEN If(~c.refused, "TrackedWithoutCoordinates")
  ELSE IF c.refused THEN {"Refused"}
  ELSE If(c.x # GridX(c.layout), "WrongX") \cup If(c.y # GridY(c.layout), "WrongY") \cup If(c.field # Field(c.layout, c.t), "WrongField")
VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
