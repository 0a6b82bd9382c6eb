------------------------------- MODULE Frechet -------------------------------
(***************************************************************************)
(* Discrete Frechet distance of two curves with integer points, squared so  *)
(* that it is exact, and the similarity score built on it.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sq(a) == a * a
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2])
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

(* The definition: over all couplings, walks from (1, 1) to (n, m) that     *)
(* advance in one or both curves, the smallest longest leash.               *)
RECURSIVE LeashFrom(_, _, _, _)
LeashFrom(P, Q, i, j) ==     \* set of the longest leashes of the walks from (i, j)
  LET here == D2(P[i], Q[j]) IN
  IF i = Len(P) /\ j = Len(Q) THEN {here}
  ELSE {MaxOf(here, x) : x \in
          (IF i < Len(P) THEN LeashFrom(P, Q, i + 1, j) ELSE {})
          \cup (IF j < Len(Q) THEN LeashFrom(P, Q, i, j + 1) ELSE {})
          \cup (IF i < Len(P) /\ j < Len(Q) THEN LeashFrom(P, Q, i + 1, j + 1) ELSE {})}
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
Coupling(P, Q) == MinSet(LeashFrom(P, Q, 1, 1))

(* The same by dynamic programming, one row of the table at a time. *)
RECURSIVE NextRow(_, _, _, _)
NextRow(p, Q, prev, acc) ==      \* prev is <<>> for the first row
  LET j == Len(acc) + 1 IN
  IF j > Len(Q) THEN acc
  ELSE LET d == D2(p, Q[j])
           best == IF prev = <<>> THEN (IF j = 1 THEN d ELSE acc[j - 1])
                   ELSE IF j = 1 THEN prev[1]
                   ELSE MinOf(prev[j], MinOf(prev[j - 1], acc[j - 1]))
       IN NextRow(p, Q, prev, Append(acc, MaxOf(d, best)))
RECURSIVE Rows(_, _, _, _)
Rows(P, Q, i, prev) == IF i > Len(P) THEN prev ELSE Rows(P, Q, i + 1, NextRow(P[i], Q, prev, <<>>))
Distance2(P, Q) == LET r == Rows(P, Q, 1, <<>>) IN r[Len(Q)]

-----------------------------------------------------------------------------
(* Similarity score: 1 - F / (sqrt(l1 l2) / sqrt 2), in ten thousandths,    *)
(* not less than 0.  d = 10000 - s must be 10000 * sqrt(2 F2 / (l1 l2)), to *)
(* half a unit: d^2 is compared with the integer part of 10^8 2 F2/(l1 l2). *)
ScoreOk(s, F2, L) ==      \* L = l1 * l2
  LET a == 2 * F2 IN
  IF a >= L THEN s = 0
  ELSE LET x == a * 10000  d1 == x \div L  r1 == x % L
           q == d1 * 10000 + (r1 * 10000) \div L
           d == 10000 - s
       IN d >= 0 /\ d * d - d - 2 <= q /\ q <= d * d + d + 2

-----------------------------------------------------------------------------
(* All pairs of short curves on a small lattice. *)
CONSTANTS XS, YS, LENS
VARIABLE P, Q
Curves == UNION {[1..n -> XS \X YS] : n \in LENS}
Init == P \in Curves /\ Q \in Curves
Next == UNCHANGED <<P, Q>>
Spec == Init /\ [][Next]_<<P, Q>>
Same == Distance2(P, Q) = Coupling(P, Q)
Symmetric == Distance2(P, Q) = Distance2(Q, P)
Ends == Distance2(P, Q) >= MaxOf(D2(P[1], Q[1]), D2(P[Len(P)], Q[Len(Q)]))
RECURSIVE Squeeze(_)
Squeeze(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = s[2] THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))
ZeroIffEqual == Distance2(P, Q) = 0 <=> Squeeze(P) = Squeeze(Q)
=============================================================================
