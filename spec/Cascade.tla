------------------------------- MODULE Cascade -------------------------------
(***************************************************************************)
(* The tests a candidate contour goes through, in order, and the tables of  *)
(* identified and discarded eddies of one level.                            *)
(*                                                                         *)
(* A candidate is a record of verdicts, one per test: "pass", "fail", or    *)
(* "any" when the reference measurement is too close to the criterion (or   *)
(* not reproducible) to tell.  The thresholds themselves are specified at   *)
(* the end, on exact ranks.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Gates == <<"area", "ellipse_fit_failed", "ellipse_area", "eccentricity", "similarity",
           "eddy_is_island", "gaussian_fit_failed", "gaussian_check">>
GaussianGates == {"gaussian_fit_failed", "gaussian_check"}
NGates == Len(Gates)
Active(skipGaussian, g) == ~(skipGaussian /\ Gates[g] \in GaussianGates)

(* Outcomes allowed from gate g on: reasons, or "identified". *)
RECURSIVE OutcomesFrom(_, _, _)
OutcomesFrom(cand, skipGaussian, g) ==
  IF g > NGates THEN {"identified"}
  ELSE IF ~Active(skipGaussian, g) THEN OutcomesFrom(cand, skipGaussian, g + 1)
  ELSE CASE cand[Gates[g]] = "fail" -> {Gates[g]}
         [] cand[Gates[g]] = "pass" -> OutcomesFrom(cand, skipGaussian, g + 1)
         [] OTHER -> {Gates[g]} \cup OutcomesFrom(cand, skipGaussian, g + 1)
Outcomes(cand, skipGaussian) == OutcomesFrom(cand, skipGaussian, 1)

(* Exact thresholds: m and t are ranks of the measurement and of the        *)
(* criterion in one total order.                                            *)
Accepts(gate, m, t) ==
  CASE gate \in {"area", "eccentricity", "similarity"} -> m <= t
    [] gate = "gaussian_check" -> m >= t
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* The machine that processes the candidates of one level. *)
CONSTANTS MAXCAND,      \* candidates per level
          VERDICTS      \* verdicts considered in the model
VARIABLES todo,         \* candidates left (sequence)
          gate,         \* test of the current candidate
          skipg,        \* Gaussian test switched off?
          identified,   \* stored eddies: sequence of candidates
          discarded,    \* sequence of <<candidate, reason>>
          hist          \* all candidates, in order
vars == <<todo, gate, skipg, identified, discarded, hist>>

Cands == [{Gates[k] : k \in 1..NGates} -> VERDICTS]
(* Representative candidates: fail at exactly one gate, at two, or nowhere. *)
Pass == [g \in {Gates[k] : k \in 1..NGates} |-> "pass"]
Few == {Pass} \cup {[Pass EXCEPT ![Gates[a]] = "fail", ![Gates[b]] = "fail"] : a, b \in 1..NGates}

Init == /\ todo \in UNION {[1..n -> Few] : n \in 0..MAXCAND}
        /\ gate = 1 /\ skipg \in BOOLEAN
        /\ identified = <<>> /\ discarded = <<>> /\ hist = todo

Cur == Head(todo)
PassGate == /\ todo # <<>> /\ gate <= NGates
            /\ ~Active(skipg, gate) \/ Cur[Gates[gate]] = "pass"
            /\ gate' = gate + 1 /\ UNCHANGED <<todo, skipg, identified, discarded, hist>>
FailGate == /\ todo # <<>> /\ gate <= NGates
            /\ Active(skipg, gate) /\ Cur[Gates[gate]] = "fail"
            /\ discarded' = Append(discarded, <<Cur, Gates[gate]>>)
            /\ todo' = Tail(todo) /\ gate' = 1 /\ UNCHANGED <<skipg, identified, hist>>
Store == /\ todo # <<>> /\ gate > NGates
         /\ identified' = Append(identified, Cur)
         /\ todo' = Tail(todo) /\ gate' = 1 /\ UNCHANGED <<skipg, discarded, hist>>
Next == PassGate \/ FailGate \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Accounted == Len(identified) + Len(discarded) + Len(todo) = Len(hist)
Sound == \A k \in DOMAIN identified : \A g \in 1..NGates :
           Active(skipg, g) => identified[k][Gates[g]] = "pass"
FirstReason == \A k \in DOMAIN discarded :
                 /\ discarded[k][1][discarded[k][2]] = "fail"
                 /\ \A g \in 1..NGates : \A r \in 1..NGates :
                      (Gates[r] = discarded[k][2] /\ g < r) => discarded[k][1][Gates[g]] = "pass"
MatchesOperator == /\ \A k \in DOMAIN identified : Outcomes(identified[k], skipg) = {"identified"}
                   /\ \A k \in DOMAIN discarded : Outcomes(discarded[k][1], skipg) = {discarded[k][2]}
Finishes == <>(todo = <<>>)
(* Loosening a criterion (turning one fail into a pass) never loses an eddy. *)
Monotone == \A c \in Few : \A g \in 1..NGates : \A s \in BOOLEAN :
              Outcomes(c, s) = {"identified"} => Outcomes([c EXCEPT ![Gates[g]] = "pass"], s) = {"identified"}
ASSUME Monotone
=============================================================================
