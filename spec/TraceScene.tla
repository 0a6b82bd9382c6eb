----------------------------- MODULE TraceScene -----------------------------
(***************************************************************************)
(* Judges what detection and tracking made of the records of scenes.  obs   *)
(* are the entries <<identifier + 1, step, x, y, sign, level, extreme,      *)
(* centred?>>, positions in grid points from the first home.                *)
(***************************************************************************)
EXTENDS SceneOps, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
HOME == 20
If(b, n) == IF b THEN {n} ELSE {}

Place(c, t, h) == <<HOME * (h % 2) + c.steps[t][h][1], HOME * (h \div 2) + c.steps[t][h][2]>>
Violations(c) ==
  IF c.exc # "" THEN {"Raised"}
  ELSE
  LET s == [amp |-> c.amp, levels |-> {c.levels[k] : k \in DOMAIN c.levels}, ntimes |-> c.ntimes, steps |-> c.steps]
      O == c.obs
      Times == DOMAIN c.steps
      there == [t \in Times |-> There(s, t)]
      At(t, h) == {k \in DOMAIN O : O[k][2] = t /\ <<O[k][3], O[k][4]>> = Place(s, t, h)}
      who == [k \in DOMAIN O |-> IF O[k][2] \in Times /\ \E h \in there[O[k][2]] : k \in At(O[k][2], h)
                                 THEN CHOOSE h \in there[O[k][2]] : k \in At(O[k][2], h) ELSE 0]
      Known == {k \in DOMAIN O : who[k] # 0}
      life == [k \in Known |-> <<who[k], Life(s, O[k][2], who[k])>>]
      First(i) == CHOOSE t \in Times : /\ \E k \in DOMAIN O : O[k][1] = i /\ O[k][2] = t
                                       /\ \A k \in DOMAIN O : O[k][1] = i => O[k][2] >= t
      ids == {O[k][1] : k \in DOMAIN O}
  IN If(\E t \in Times : \E h \in there[t] : At(t, h) = {}, "EddyNotFound")
     \cup If(\E t \in Times : \E h \in there[t] : Cardinality(At(t, h)) > 1, "EddyFoundTwice")
     \cup If(Known # DOMAIN O, "NotAnEddy")
     \cup If(\E k \in Known : O[k][5] # Sign(s.amp[who[k]]), "WrongSign")
     \cup If(\E k \in Known : O[k][6] \notin Levels(s, who[k]), "WrongLevel")
     \cup If(\E k \in Known : O[k][7] # s.amp[who[k]], "WrongExtreme")
     \cup If(\E k \in Known : ~O[k][8], "NotCentred")
     \cup If(\E k, m \in Known : life[k] = life[m] /\ O[k][1] # O[m][1], "TrackBroken")
     \cup If(\E k, m \in Known : life[k] # life[m] /\ O[k][1] = O[m][1], "TracksMixed")
     \cup If(ids # 1..Cardinality(ids) \/ (Known = DOMAIN O /\ \E i, j \in ids : i < j /\ First(i) > First(j)), "Identifiers")

VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
