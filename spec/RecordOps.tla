------------------------------ MODULE RecordOps ------------------------------
(* The columns of the record of an eddy, and the rows of a registry.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Scalars == {"identifier", "level", "area_eddy", "radius_eddy", "contour_ellipse_error", "ellipse_eccen", "eddy_sign", "contour_gaussian_error"}
Properties == Scalars \cup {"contour", "ellipse_params", "contour_center", "eddy_maxima", "gaussian_params"}
(* Columns of each property, in the order of its values. *)
ColumnsOf(p) ==
  CASE p = "contour" -> <<"contour_path_x", "contour_path_y">>
    [] p = "ellipse_params" -> <<"ellipse_params_a", "ellipse_params_b", "ellipse_params_theta">>
    [] p = "contour_center" -> <<"contour_x", "contour_y">>
    [] p = "eddy_maxima" -> <<"maxima", "maxima_y", "maxima_x">>
    [] p = "gaussian_params" -> <<"gaussian_params_x", "gaussian_params_y", "gaussian_params_sigma_x", "gaussian_params_sigma_y", "gaussian_params_theta">>
    [] OTHER -> <<p>>
Range(s) == {s[i] : i \in DOMAIN s}
(* An eddy is a function from properties to sequences of values (a path for *)
(* the contour); one that isn't fitted has no Gaussian.  Columns of a       *)
(* selection, as a function from names to sequences of values.              *)
Known(props, eddy) == {p \in props : p \in DOMAIN eddy}
Values(eddy, p, n) == IF p = "contour" THEN [k \in DOMAIN eddy[p] |-> eddy[p][k][n]] ELSE <<eddy[p][n]>>
Names(props, eddy) == UNION {Range(ColumnsOf(p)) : p \in Known(props, eddy)}
Cell(props, eddy, name) ==
  LET p == CHOOSE q \in Known(props, eddy) : name \in Range(ColumnsOf(q))
      n == CHOOSE i \in DOMAIN ColumnsOf(p) : ColumnsOf(p)[i] = name
  IN Values(eddy, p, n)

(* Rows of the eddies stored since the last exit: <<identifier, index, eddy>>. *)
RECURSIVE RowsFrom(_, _, _)
RowsFrom(stored, size, k) == IF k > Len(stored) THEN <<>>
  ELSE [i \in 1..size[stored[k]] |-> <<k - 1, i - 1, stored[k]>>] \o RowsFrom(stored, size, k + 1)
Table(stored, size) == RowsFrom(stored, size, 1)
=============================================================================
