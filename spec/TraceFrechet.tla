----------------------------- MODULE TraceFrechet -----------------------------
(* Judges recorded curve distances and similarity scores.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
F == INSTANCE Frechet WITH P <- <<>>, Q <- <<>>, XS <- {}, YS <- {}, LENS <- {}
If(b, n) == IF b THEN {n} ELSE {}

RECURSIVE Length(_)
Length(s) == IF Len(s) < 2 THEN 0 ELSE LET a == s[1] b == s[2] d == (IF a[1] > b[1] THEN a[1] - b[1] ELSE b[1] - a[1]) + (IF a[2] > b[2] THEN a[2] - b[2] ELSE b[2] - a[2]) IN d + Length(Tail(s))

(* f2: squared distance (-1: not the root of an integer), f2r the other way round. *)
JudgeExact(c) == If(c.f2 # F!Distance2(c.p, c.q), "WrongDistance") \cup If(c.f2r # c.f2, "NotSymmetric")
(* Curves longer than 300 points are thinned: the distance is only bounded. *)
JudgeLong(c) == If(~c.finite, "NotDefined") \cup If(~c.bounds, "OutOfBounds") \cup If(~c.symmetric, "NotSymmetric")
JudgeScore(c) ==
  LET F2 == F!Distance2(c.p, c.q) IN
  If(~c.rounded, "NotRounded")
  \cup If(c.s \notin 0..10000, "OutOfRange")
  \cup If(~F!ScoreOk(c.s, F2, Length(c.p) * Length(c.q)), "WrongScore")
  \cup If(c.sr # c.s, "NotSymmetric")
  \cup If(c.same /\ c.s # 10000, "IdenticalCurves")
  \cup If(c.moved # c.s, "MovedCurves") \cup If(c.scaled # c.s, "ScaledCurves")

Violations(c) == IF c.exc # "" THEN {"Raised"}
                 ELSE CASE c.kind = "exact" -> JudgeExact(c) [] c.kind = "long" -> JudgeLong(c) [] OTHER -> JudgeScore(c)
VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
