-------------------------- MODULE TraceThresholds --------------------------
(***************************************************************************)
(* Judges detections repeated with a criterion at, or next to, a recorded   *)
(* measurement (m and t are their ranks), and with one criterion loosened.  *)
(* The contour passes all the other tests, so its outcome only depends on   *)
(* the test of that criterion (Cascade!Accepts).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
Casc == INSTANCE Cascade WITH MAXCAND <- 0, VERDICTS <- {}, todo <- <<>>, gate <- 1, skipg <- TRUE,
                              identified <- <<>>, discarded <- <<>>, hist <- <<>>
Range(s) == {s[k] : k \in DOMAIN s}

Expected(c) == IF Casc!Accepts(c.gate, c.m, c.t) THEN "identified" ELSE c.gate
Violations(c) ==
  IF c.kind = "exact"
  THEN IF c.outcome = Expected(c) THEN {} ELSE {c.gate, "expected " \o Expected(c)}
  ELSE IF Range(c.tight) \subseteq Range(c.loose) THEN {} ELSE {"LooserCriterionLosesEddies"}

VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
