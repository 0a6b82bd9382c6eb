----------------------------- MODULE TraceLayout -----------------------------
(***************************************************************************)
(* Judges pairs of runs on the same field: stored in another way (the same  *)
(* table, with the time steps counted from where the field starts), or with *)
(* another origin of longitudes (the same measures of each contour).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
If(b, n) == IF b THEN {n} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol + (IF Abs(a) > 100000000 THEN 1000 ELSE 0)

Store(c) ==
  LET Want == [n \in DOMAIN c.base |-> <<c.base[n][1], c.base[n][2] + c.layout.before, c.base[n][3]>>] IN
  If(Len(c.obs) # Len(c.base), "OtherEddies")
  \cup If(Len(c.obs) = Len(c.base) /\ \E n \in DOMAIN Want : c.obs[n][1] # Want[n][1] \/ c.obs[n][2] # Want[n][2], "OtherTracks")
  \cup If(Len(c.obs) = Len(c.base) /\ \E n \in DOMAIN Want : c.obs[n][3] > 1, "OtherMeasures")

Contour(k) ==
  IF k.one # k.two THEN If(k.sure, "OtherOutcome")
  ELSE IF ~k.one THEN {}
  ELSE If(~Near(k.a.area, k.b.area, 2 + k.a.area \div 1000000) \/ ~Near(k.a.radius, k.b.radius, 2), "OtherSize")
       \cup If(~Near(k.a.cx, k.b.cx, 2) \/ ~Near(k.a.cy, k.b.cy, 2), "OtherCentre")
       \cup If(k.fit /\ (~Near(k.a.ecc, k.b.ecc, 20) \/ ~Near(k.a.sim, k.b.sim, 3) \/ ~Near(k.a.a, k.b.a, 20) \/ ~Near(k.a.b, k.b.b, 20)), "OtherEllipse")
       \cup If(~k.tie /\ (k.a.sign # k.b.sign \/ k.a.ext # k.b.ext), "OtherExtreme")
       \cup If(~k.tie /\ (k.a.i # k.b.i \/ k.a.j # k.b.j), "OtherPosition")
Shift(c) == UNION {Contour(c.contours[n]) : n \in DOMAIN c.contours} \cup If(c.extra # 0, "NotAContour")
Violations(c) == IF c.exc # "" THEN {"Raised"} ELSE IF c.kind = "store" THEN Store(c) ELSE Shift(c)
VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
