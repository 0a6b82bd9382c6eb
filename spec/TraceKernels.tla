---------------------------- MODULE TraceKernels ----------------------------
(***************************************************************************)
(* Judges kernels made by the code: frames[k][y][x] is the exponent of the  *)
(* value found times f^2, rounded (far: the value is too small to tell).    *)
(***************************************************************************)
EXTENDS KernelsOps, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
Abs(a) == IF a < 0 THEN -a ELSE a
If(b, n) == IF b THEN {n} ELSE {}
Grid(c) == 1..c.size
Far(c, v) == v >= c.limit
Wrong(c, k, x, y) ==
  LET e == Exponent(IF c.default THEN Centre(c.size) ELSE c.centres[k], x - 1, y - 1)  v == c.frames[k][y][x]
  IN IF Far(c, e) THEN v < c.limit - 2 ELSE Abs(v - e) > 1 + e \div 100000
Violations(c) ==
  IF c.exc # "" THEN {"Raised"}
  ELSE IF Len(c.frames) # Len(c.centres) \/ \E k \in DOMAIN c.frames : Len(c.frames[k]) # c.size \/ \E y \in DOMAIN c.frames[k] : Len(c.frames[k][y]) # c.size
       THEN {"Shape"}
  ELSE If(\E k \in DOMAIN c.frames, x \in Grid(c), y \in Grid(c) : Wrong(c, k, x, y), "Kernel")
VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
