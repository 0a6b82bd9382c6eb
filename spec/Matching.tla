------------------------------ MODULE Matching ------------------------------
(***************************************************************************)
(* Matching of new detections with known eddies, as used both to merge the  *)
(* levels of a snapshot (Catalogue) and to continue tracks in time (Tracks).*)
(*                                                                         *)
(* D(n, p) is the distance between the extremes of n and p, R(n) the radius *)
(* of the new detection; values that differ by at most M are too close to   *)
(* be told apart (0 in the models; one unit in recorded executions).        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

None == 0

(* Known eddies that may be the nearest one to n. *)
Nearest(D(_, _), M, n, P) ==
  IF P = {} THEN {}
  ELSE LET ds == {D(n, p) : p \in P}
           m == CHOOSE d \in ds : \A x \in ds : d <= x
       IN {p \in P : D(n, p) <= m + M}
SurelyWithin(D(_, _), R(_), M, n, p) == D(n, p) < R(n) - M
MayBeWithin(D(_, _), R(_), M, n, p) == D(n, p) < R(n) + M
(* What n may be matched with: known eddies, or None. *)
Options(D(_, _), R(_), M, n, P) ==
  LET N == Nearest(D, M, n, P) IN
  {p \in N : MayBeWithin(D, R, M, n, p)}
    \cup (IF N # {} /\ \A p \in N : SurelyWithin(D, R, M, n, p) THEN {} ELSE {None})
(* The ones of S that may be the closest to p. *)
Closest(D(_, _), M, S, p) == {n \in S : \A m \in S : D(n, p) <= D(m, p) + M}

(* All the functions that take one of its options for each element. *)
RECURSIVE Choices(_, _)
Choices(elems, opts) ==
  IF elems = {} THEN {<<>>}
  ELSE LET n == CHOOSE x \in elems : TRUE
           rest == Choices(elems \ {n}, opts)
       IN {(n :> o) @@ f : o \in opts[n], f \in rest}
Elems(s) == {s[k] : k \in DOMAIN s}
=============================================================================
