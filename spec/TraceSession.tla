---------------------------- MODULE TraceSession -----------------------------
(***************************************************************************)
(* Judges replayed sessions.  Each step has the operation and its object,   *)
(* the result against that of a fresh process (r), the result of the same   *)
(* call made again (r2), and what changed of what belongs to the caller.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
Prop == IOEnv.PROP
If(b, n) == IF b THEN {n} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
UpTo(n) == [k \in 1..n |-> k - 1]

Same(r, clause) == If(r.n # r.want \/ r.nd # r.wantd \/ r.differ > 1, clause)
Names(what, o) == what \o ToString(o)
(* What each operation may change: the snapshot that is loaded, or the setting it sets. *)
MayChange(e) ==
  CASE e.op \in {"load", "track"} -> {Names("loaded", e.o)}
    [] e.op = "criteria" -> {Names("criteria", e.o)}
    [] e.op = "filter" -> {Names("filter", e.o)}
    [] OTHER -> {}
C05(e) ==
  IF ~e.checked THEN {}
  ELSE IF e.exc # "" THEN {"Raised"}
  ELSE Same(e.r, "DependsOnHistory")
       \cup If(e.op = "detect" /\ (e.r.ids # UpTo(e.r.n) \/ e.r.dids # UpTo(e.r.nd)), "Identifiers")
C15(e) ==
  If(Range(e.changed) \ MayChange(e) # {}, "InputsChanged")
  \cup If(e.exc # "", "Raised")
  \cup (IF e.again /\ e.exc = "" THEN Same(e.r2, "NotRepeatable") ELSE {})
  \cup (IF e.checked /\ e.exc = "" THEN Same(e.r, "OtherOnNewObject") ELSE {})
Violations(c) == If(c.exc # "", "Raised") \cup UNION {IF Prop = "C05" THEN C05(c.steps[n]) ELSE C15(c.steps[n]) : n \in DOMAIN c.steps}
VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
