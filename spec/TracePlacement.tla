--------------------------- MODULE TracePlacement ----------------------------
(***************************************************************************)
(* Judges generated fields.  field: shape of the data, the grid asked for,  *)
(* the peaks found in each frame <<i, j, eddy, amplitude>> (eddy 0: it is   *)
(* none of those of the field), and the largest difference between the      *)
(* frame and the sum of the Gaussians of its eddies (millionths).           *)
(* moving: the peak of each frame of a moving Gaussian.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
If(b, n) == IF b THEN {n} ELSE {}
Sq(a) == a * a
D2(c, p, q) == Sq((p[1] - q[1]) * c.ux) + Sq((p[2] - q[2]) * c.uy)
TOL == 200

Frame(c, f) ==
  LET P == f.peaks IN
  If(f.residual > TOL, "NotTheSum")
  \cup (IF ~c.apart THEN {}
        ELSE If({P[k][3] : k \in DOMAIN P} # 1..c.n \/ Len(P) # c.n, "OtherEddies")
             \cup If(\E a, b \in DOMAIN P : a < b /\ D2(c, P[a], P[b]) < c.r2, "TooClose")
             \cup If(\E k \in DOMAIN P : P[k][1] \notin c.margin..(c.margin + c.nx - 1) \/ P[k][2] \notin c.margin..(c.margin + c.ny - 1), "OutsideTheGrid")
             \cup If(\E k \in DOMAIN P : P[k][3] # 0 /\ (P[k][4] - c.amps[P[k][3]] > TOL \/ c.amps[P[k][3]] - P[k][4] > TOL), "OtherAmplitude"))
Field(c) ==
  If(c.shape # <<c.frames, c.ny + 2 * c.margin, c.nx + 2 * c.margin>>, "WrongShape")
  \cup If(Len(c.seen) # c.frames, "FramesMissing")
  \cup UNION {Frame(c, c.seen[n]) : n \in DOMAIN c.seen}

Moving(c) ==
  If(c.shape # <<c.frames, c.size, c.size>>, "WrongShape")
  \cup If(\E n \in DOMAIN c.centers : c.inside[n] /\ (c.peaks[n][1] # c.centers[n][1] \/ c.peaks[n][2] # c.centers[n][2]), "OtherCentre")
  \cup If(\E n \in DOMAIN c.centers : c.inside[n] /\ c.peaks[n][3] # 1000000, "OtherPeak")
  \cup If(\E n \in DOMAIN c.centers : c.residuals[n] > TOL, "NotTheGaussian")

(* A random walk: every step goes along one of the eight directions, and    *)
(* all of them occur (walks are long enough).                               *)
Directions == {<<i, j>> : i, j \in -1..1} \ {<<0, 0>>}
Walk(c) ==
  LET P == c.path
      moved == {<<P[n + 1][1] - P[n][1], P[n + 1][2] - P[n][2]>> : n \in 1..(Len(P) - 1)}
      allowed == {<<d[1] * c.step, d[2] * c.step>> : d \in Directions}
  IN If(moved \ allowed # {}, "OtherStep") \cup If(allowed \ moved # {}, "DirectionMissing")

Violations(c) == IF c.exc # "" THEN {"Raised"} ELSE CASE c.kind = "field" -> Field(c) [] c.kind = "moving" -> Moving(c) [] c.kind = "walk" -> Walk(c) [] OTHER -> {}
VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
