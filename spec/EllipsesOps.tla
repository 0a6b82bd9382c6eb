------------------------------ MODULE EllipsesOps ----------------------------
(***************************************************************************)
(* Ellipses whose vertices are exact.  An ellipse has integer axes A >= B,  *)
(* an integer centre and a direction <<p, q, h>>, with p^2 + q^2 = h^2, of  *)
(* its major axis.  <<m, n, k>>, with m^2 + n^2 = k^2, is a point of the    *)
(* unit circle, and gives a vertex.  Coordinates are scaled by h k.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Vertex(e, c) == <<e.cx * e.h * c[3] + e.A * e.p * c[1] - e.B * e.q * c[2],
                  e.cy * e.h * c[3] + e.A * e.q * c[1] + e.B * e.p * c[2]>>
\* <<X, Y>>, scaled by h k, is on the ellipse.
On(e, k, v) == LET dx == v[1] - e.cx * e.h * k
                   dy == v[2] - e.cy * e.h * k
                   u == e.p * dx + e.q * dy
                   w == e.p * dy - e.q * dx
               IN e.B * e.B * u * u + e.A * e.A * w * w = e.A * e.A * e.B * e.B * e.h * e.h * e.h * e.h * k * k
\* The direction of an axis has no sense; that of a circle means nothing.
SameLine(d1, d2) == d1[1] * d2[2] = d1[2] * d2[1]
SameCurve(e, f) == /\ e.A = f.A /\ e.B = f.B /\ e.cx = f.cx /\ e.cy = f.cy
                   /\ e.A = e.B \/ SameLine(<<e.p, e.q>>, <<f.p, f.q>>)
=============================================================================
