------------------------------ MODULE Ellipses -------------------------------
(***************************************************************************)
(* Ellipses, moved and scaled: their exact vertices are on the curve, which *)
(* determines axes, orientation and centre, and follow it.                  *)
(***************************************************************************)
EXTENDS EllipsesOps, TLC, Json
CONSTANTS AXES, EMIT
Centres == {<<0, 0>>, <<1, -2>>}
Circle5 == {<<m, n, 5>> : m \in -5..5, n \in -5..5} \cap {c \in (-5..5) \X (-5..5) \X {5} : c[1] * c[1] + c[2] * c[2] = 25}
Directions == {<<1, 0, 1>>, <<0, 1, 1>>} \cup {<<p, q, 5>> : p \in {3, 4}, q \in {3, 4, -3, -4}}
Ellipse == {e \in [A : AXES, B : AXES, d : {d \in Directions : d[1] * d[1] + d[2] * d[2] = d[3] * d[3]}, c : Centres] : e.A >= e.B}
All == {[A |-> e.A, B |-> e.B, p |-> e.d[1], q |-> e.d[2], h |-> e.d[3], cx |-> e.c[1], cy |-> e.c[2]] : e \in Ellipse}
Quadratic(e) == <<e.B * e.B * e.p * e.p + e.A * e.A * e.q * e.q, 2 * e.p * e.q * (e.B * e.B - e.A * e.A), e.B * e.B * e.q * e.q + e.A * e.A * e.p * e.p>>
\* The same curve if the quadratic parts, each over A^2 B^2 h^2, and the centres are the same.
SameQuadratic(e, f) == /\ <<e.cx, e.cy>> = <<f.cx, f.cy>>
                       /\ \A n \in 1..3 : Quadratic(e)[n] * (f.A * f.A * f.B * f.B * f.h * f.h) = Quadratic(f)[n] * (e.A * e.A * e.B * e.B * e.h * e.h)
VARIABLES e
Init == e \in All
\* Translations and scalings of an ellipse.
Move(d) == e' = [e EXCEPT !.cx = @ + d[1], !.cy = @ + d[2]]
Scale(f) == e' = [e EXCEPT !.A = f * @, !.B = f * @, !.cx = f * @, !.cy = f * @]
Small == e.A \in AXES /\ e.cx \in -2..2 /\ e.cy \in -2..2
Next == (\E d \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>} : Move(d)) \/ Scale(2)
Spec == Init /\ [][Next]_e
VerticesOn == \A c \in Circle5 : On(e, 5, Vertex(e, c))
\* The curve determines axes, orientation and centre.
Determined == \A f \in All : SameQuadratic(e, f) <=> SameCurve(e, f)
\* Its vertices move and grow with it.
Follows == [][\A c \in Circle5 : LET v == Vertex(e, c) w == Vertex(e', c)
                  IN \/ \A n \in 1..2 : w[n] = 2 * v[n]
                     \/ \E d \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>} : w = <<v[1] + d[1] * e.h * 5, v[2] + d[2] * e.h * 5>>]_e
Emit == ~EMIT \/ PrintT(<<"HIST", ToJson(e)>>)
=============================================================================
