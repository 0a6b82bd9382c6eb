------------------------------- MODULE Filters -------------------------------
(***************************************************************************)
(* The anomaly that is tracked: the field minus a mean.  A field is z[j][i] *)
(* (NA: missing); means are exact, as <<sum, count>>.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
NA == 99999

RECURSIVE SumOver(_, _)
SumOver(z, S) == IF S = {} THEN 0 ELSE LET q == CHOOSE x \in S : TRUE IN z[q[2]][q[1]] + SumOver(z, S \ {q})

Width(z) == Len(z[1])
Height(z) == Len(z)
Valid(z, S) == {q \in S : z[q[2]][q[1]] # NA}
Fill(z) == [j \in DOMAIN z |-> [i \in DOMAIN z[j] |-> IF z[j][i] = NA THEN 0 ELSE z[j][i]]]
MeanOf(z, S) == LET v == Valid(z, S) IN <<SumOver(z, v), Cardinality(v)>>

Row(z, j) == {<<i, j>> : i \in 1..Width(z)}
Column(z, i) == {<<i, j>> : j \in 1..Height(z)}
(* The side of the window is odd; points outside of the domain count as zeros. *)
Side(kernel) == IF kernel % 2 = 0 THEN kernel + 1 ELSE kernel
WindowMean(z, i, j, kernel) ==
  LET h == Side(kernel) \div 2
      in == {<<a, b>> : a \in (IF i - h < 1 THEN 1 ELSE i - h)..(IF i + h > Width(z) THEN Width(z) ELSE i + h),
                        b \in (IF j - h < 1 THEN 1 ELSE j - h)..(IF j + h > Height(z) THEN Height(z) ELSE j + h)}
      missing == Cardinality(in) - Cardinality(Valid(z, in))
  IN <<SumOver(z, Valid(z, in)), Side(kernel) * Side(kernel) - missing>>

(* The mean that is removed at a point, <<0, 1>> without filter. *)
Removed(z, filter, kernel, i, j) ==
  CASE filter = "meridional" -> MeanOf(z, Row(z, j))
    [] filter = "zonal" -> MeanOf(z, Column(z, i))
    [] filter = "convolution" -> WindowMean(z, i, j, kernel)
    [] OTHER -> <<0, 1>>

-----------------------------------------------------------------------------
(* Checked on all the small fields. *)
CONSTANTS VALUES, W, H
VARIABLE z
Init == z \in [1..H -> [1..W -> VALUES]]
Next == UNCHANGED z
Spec == Init /\ [][Next]_z

Anomaly(f, filter, kernel, i, j) ==      \* times the count
  LET m == Removed(f, filter, kernel, i, j) IN f[j][i] * m[2] - m[1]
(* Nothing is left of the mean that was removed. *)
ZeroMean ==
  /\ \A j \in 1..H : SumOver([b \in 1..H |-> [a \in 1..W |-> IF z[b][a] = NA THEN 0 ELSE Anomaly(z, "meridional", 1, a, b)]], Row(z, j)) = 0
  /\ \A i \in 1..W : SumOver([b \in 1..H |-> [a \in 1..W |-> IF z[b][a] = NA THEN 0 ELSE Anomaly(z, "zonal", 1, a, b)]], Column(z, i)) = 0
(* A constant along x is removed by the meridional filter, along y by the zonal one. *)
Shifted(c, d) == [j \in 1..H |-> [i \in 1..W |-> IF z[j][i] = NA THEN NA ELSE z[j][i] + c[i] + d[j]]]
Blind == \A c \in [1..W -> {0, 2}] : \A d \in [1..H -> {0, 2}] :
  \A i \in 1..W, j \in 1..H : z[j][i] # NA =>
     /\ Anomaly(Shifted([k \in 1..W |-> 0], d), "meridional", 1, i, j) = Anomaly(z, "meridional", 1, i, j)
     /\ Anomaly(Shifted(c, [k \in 1..H |-> 0]), "zonal", 1, i, j) = Anomaly(z, "zonal", 1, i, j)
(* A window of side one removes everything, and even kernels are the next odd ones. *)
Trivial == \A i \in 1..W, j \in 1..H : z[j][i] # NA =>
             /\ Anomaly(z, "convolution", 1, i, j) = 0
             /\ \A k \in {2, 4} : WindowMean(z, i, j, k) = WindowMean(z, i, j, k + 1)
(* Filling the missing values makes them zeros of the field. *)
Filled == \A i \in 1..W, j \in 1..H : \A f \in {"meridional", "zonal", "convolution"} :
             Removed(Fill(z), f, 3, i, j)[2] = (CASE f = "meridional" -> W [] f = "zonal" -> H [] OTHER -> 9)
=============================================================================
