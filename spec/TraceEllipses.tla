--------------------------- MODULE TraceEllipses -----------------------------
(***************************************************************************)
(* Judges fitted ellipses.                                                  *)
(* exact: the ellipse e, points of the unit circle, the vertices pts given  *)
(*   to the code (scaled by h k), and what it returned: axes and centre of  *)
(*   the outline (thousandths of that scale), direction (millionths), and   *)
(*   the largest deviation of its outline from the ellipse (millionths).    *)
(* moved: the fits of a contour, and of the same contour moved and scaled:  *)
(*   deviations (millionths) from the moved and scaled fit.                 *)
(***************************************************************************)
EXTENDS EllipsesOps, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
If(b, n) == IF b THEN {n} ELSE {}
Abs(x) == IF x < 0 THEN -x ELSE x
Sized(o, n) == \A k \in DOMAIN o : Abs(o[k]) <= n
\* Thousandths: half a unit from rounding plus a few parts in a million of the size.
Near(o, x) == Abs(o - 1000 * x) <= 3 + Abs(x) \div 100
Exact(c) ==
  LET e == c.e  s == e.h * c.k  o == c.obs IN
  IF ~\A n \in DOMAIN c.pts : c.pts[n] = Vertex(e, c.unit[n]) /\ On(e, c.k, c.pts[n]) THEN {"BadCase"}
  ELSE If(~Near(o.a, e.A * s), "MajorAxis") \cup If(~Near(o.b, e.B * s), "MinorAxis")
       \cup If(~o.finite, "NotANumber")
       \cup If(e.A # e.B /\ Abs(o.dir[1] * e.q - o.dir[2] * e.p) > 20 * e.h, "Orientation")
       \cup If(~Near(o.c[1], e.cx * s) \/ ~Near(o.c[2], e.cy * s), "Centre")
       \cup If(o.outline > 100, "Outline") \cup If(o.n # Len(c.pts), "OutlineLength")
Moved(c) == If(~c.finite, "NotANumber")
            \cup (IF c.sure THEN If(~Sized(c.axes, 100), "Axes") \cup If(~Sized(c.direction, 100), "Direction") \cup If(~Sized(c.centre, 100), "Centre") \cup If(~Sized(c.outline, 100), "Outline")
                                 \cup If(c.shape > 2000, "NotAnEllipse")
                            ELSE {})
            \cup If(c.order, "AxesSwapped")
Violations(c) == IF c.exc # "" THEN {"Raised"} ELSE IF c.kind = "exact" THEN Exact(c) ELSE Moved(c)
VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
