---------------------------- MODULE TraceContours ----------------------------
(* Judges contours recorded from the implementation: each case has a field   *)
(* and obs, the traced curves as sequences of scaled positions.              *)
EXTENDS MarchingSquares, SequencesExt, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)

(* The direction of a contour that ends on the boundary is not specified. *)
MatchClosed(o, pts) == Len(o) = Len(pts) + 1 /\ o[1] = o[Len(o)] /\ SameCycle(SubSeq(o, 1, Len(o) - 1), pts)

Violations(c) ==
  IF c.exc # "" THEN {"Raised"}
  ELSE
  LET f == c.f
      cs == ContoursOf(f)
      open == {Points(f, p) : p \in cs.open}
      closed == {Points(f, p) : p \in cs.closed}
      N == Cardinality(cs.open) + Cardinality(cs.closed)
      O == DOMAIN c.obs
      Known(o) == o \in open \/ Reverse(o) \in open \/ \E p \in closed : MatchClosed(o, p)
  IN (IF Len(c.obs) # N THEN {"NumberOfContours"} ELSE {})
     \cup (IF \E k \in O : ~Known(c.obs[k]) THEN {"NotAContour"} ELSE {})
     \cup (IF \E p \in open : \A k \in O : c.obs[k] # p /\ Reverse(c.obs[k]) # p THEN {"MissingOpenContour"} ELSE {})
     \cup (IF \E p \in closed : \A k \in O : ~MatchClosed(c.obs[k], p) THEN {"MissingClosedContour"} ELSE {})

VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
