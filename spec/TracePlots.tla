----------------------------- MODULE TracePlots ------------------------------
(***************************************************************************)
(* Judges pictures made by the code.  Each case has the catalogue it was    *)
(* given and, for each panel, the marks, the legend and whether the field   *)
(* behind is the tracked one.  Keys of levels are their numbers in the      *)
(* catalogue, keys of discarded contours are reasons.                       *)
(***************************************************************************)
EXTENDS PlotsOps, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
If(b, n) == IF b THEN {n} ELSE {}
Set(q) == {q[k] : k \in DOMAIN q}
Panel(cat, p) ==
  LET c == Set(cat)  m == Set(p.marks)  l == Set(p.legend) IN
  If(~p.field, "AnotherField") \cup If(NotDrawn(c, m) # {}, "NotDrawn") \cup If(Invented(c, m) # {}, "Invented")
  \cup If(Miscoloured(c, m, l) # {}, "WrongColour") \cup If(Confused(c, m), "Confused")
  \cup If(l # {} /\ BadLegend(l, Keys(c)), "WrongLegend")
Violations(c) ==
  IF c.exc # "" THEN {"Raised"}
  ELSE If(c.changed, "Changed") \cup If(Len(c.panels) # Len(c.cats), "MissingPanel")
       \cup (IF Len(c.panels) = Len(c.cats) THEN UNION {Panel(c.cats[k], c.panels[k]) : k \in DOMAIN c.cats} ELSE {})
VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
