----------------------------- MODULE KernelsOps -----------------------------
(***************************************************************************)
(* Gaussian kernels: the value at a point is 2^-E, where                    *)
(*   E = 4 d^2 / f^2,                                                       *)
(* d is the distance to the centre and f the full width at half maximum.    *)
(* Centres c and widths f come in halves of a grid step (doubled integers), *)
(* so that E f^2 is an integer.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Sq(a) == a * a
(* Exponent times f^2, at the point <<x, y>>. *)
Exponent(c, x, y) == 4 * (Sq(2 * x - c[1]) + Sq(2 * y - c[2]))
Centre(size) == <<2 * (size \div 2), 2 * (size \div 2)>>
=============================================================================
