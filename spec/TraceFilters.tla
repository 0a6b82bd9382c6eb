----------------------------- MODULE TraceFilters -----------------------------
(***************************************************************************)
(* Judges recorded filtered fields: obs[j][i] is the tracked value times    *)
(* 10000 (NA: missing).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
PROP == IOEnv.PROP
F == INSTANCE Filters WITH z <- <<>>, VALUES <- {}, W <- 0, H <- 0
NA == 99999
Abs(a) == IF a < 0 THEN -a ELSE a
If(b, n) == IF b THEN {n} ELSE {}

Good(c, z, i, j) ==
  LET m == F!Removed(z, c.filter, c.kernel, i, j)
      o == c.obs[j][i]
  IN IF z[j][i] = NA THEN o = NA
     ELSE o # NA /\ Abs(o * m[2] - (z[j][i] * m[2] - m[1]) * 10000) <= m[2]
JudgeField(c) ==
  IF c.exc # "" THEN {"Raised"}
  ELSE
  LET z == IF c.fill THEN F!Fill(c.z) ELSE c.z IN
  If(\E j \in DOMAIN z : \E i \in DOMAIN z[j] : ~Good(c, z, i, j),
     IF \E j \in DOMAIN z : \E i \in DOMAIN z[j] : (z[j][i] = NA) # (c.obs[j][i] = NA) THEN "MissingValues" ELSE "WrongAnomaly")
  \cup If(~c.input_same, "InputChanged")

Violations(c) ==
  CASE c.kind = "field" -> JudgeField(c)
    [] c.kind = "unknown" -> If(~c.rejected, "UnknownFilterAccepted")
    \* detection on missing data that is filled, and on zeros
    [] OTHER -> If(c.filled # c.zeros, "FilledDiffersFromZeros")

VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
