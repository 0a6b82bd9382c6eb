------------------------------ MODULE TracksOps ------------------------------
(***************************************************************************)
(* Tracks: the detections of each time step continue tracks or start new    *)
(* ones.  last[i] is the last time step and detection of track i (tracks    *)
(* are numbered from 1 here); as gives the track of each new detection.     *)
(***************************************************************************)
EXTENDS Matching

Alive(last, t, ntimes) == {i \in DOMAIN last : last[i].t >= t - 1 - ntimes}

-----------------------------------------------------------------------------
(* Constructive form: the tracks that the detections N may be given.        *)
Continuations(D(_, _), R(_), M, last, t, ntimes, N) ==
  LET A == Alive(last, t, ntimes)
      DT(n, i) == D(n, last[i].d)
      opts == [n \in N |-> IF A = {} THEN {None} ELSE Options(DT, R, M, n, A)]
      Result(f, win) == [n \in N |-> IF f[n] # None /\ win[f[n]] = n THEN f[n] ELSE None]
      Results(f) ==
        LET targets == {f[n] : n \in N} \ {None}
            wins == Choices(targets, [i \in targets |-> Closest(DT, M, {n \in N : f[n] = i}, i)])
        IN {Result(f, w) : w \in wins}
  IN UNION {Results(f) : f \in Choices(N, opts)}

-----------------------------------------------------------------------------
(* Relational form, one clause per way of being wrong.  as[n] is a track    *)
(* number; numbers beyond Len(last) are new tracks.                         *)
Continues(last, as, n) == as[n] \in DOMAIN last

TwoDetections(as) == \E n, m \in DOMAIN as : n # m /\ as[n] = as[m]
NewNumbers(last, as) == {as[n] : n \in {m \in DOMAIN as : ~Continues(last, as, m)}}
BadNumbers(last, as) ==
  LET new == NewNumbers(last, as) IN new # (Len(last) + 1)..(Len(last) + Cardinality(new))
RevivesEnded(last, t, ntimes, as) ==
  \E n \in DOMAIN as : Continues(last, as, n) /\ as[n] \notin Alive(last, t, ntimes)

(* n continues a track that isn't the nearest, or isn't within its radius,  *)
(* or that another detection had to continue.                               *)
WronglyContinued(D(_, _), R(_), M, last, t, ntimes, as, n) ==
  LET A == Alive(last, t, ntimes)
      DT(m, i) == D(m, last[i].d)
      i == as[n]
      Claims(m) == Options(DT, R, M, m, A) = {i}
  IN /\ i \in A
     /\ \/ i \notin Options(DT, R, M, n, A)
        \/ \E m \in DOMAIN as : m # n /\ Claims(m) /\ DT(m, i) < DT(n, i) - M
(* n starts a track although it had to continue track i. *)
MustContinue(D(_, _), R(_), M, last, t, ntimes, as, n, i) ==
  LET A == Alive(last, t, ntimes)
      DT(m, k) == D(m, last[k].d)
  IN /\ Options(DT, R, M, n, A) = {i}
     /\ \A m \in DOMAIN as : m # n /\ i \in Options(DT, R, M, m, A) => DT(m, i) > DT(n, i) + M
WronglyNew(D(_, _), R(_), M, last, t, ntimes, as, n) ==
  \E i \in Alive(last, t, ntimes) : as[n] # i /\ MustContinue(D, R, M, last, t, ntimes, as, n, i)

Update(last, t, as) ==
  LET top == Len(last) + Cardinality(NewNumbers(last, as)) IN
  [i \in 1..top |-> IF \E n \in DOMAIN as : as[n] = i
                    THEN [t |-> t, d |-> CHOOSE n \in DOMAIN as : as[n] = i] ELSE last[i]]
=============================================================================
