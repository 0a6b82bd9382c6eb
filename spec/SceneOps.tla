------------------------------- MODULE SceneOps -------------------------------
(***************************************************************************)
(* The truth behind a record: isolated eddies, each in its own home, that   *)
(* move by at most one grid step at a time, vanish and come back.           *)
(* A scene is [amp, levels, ntimes, steps]; amplitudes and levels in tenths *)
(* of the unit; steps[t][h] is the offset of eddy h from its home at time   *)
(* t - 1, or Away.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Away == <<99, 99>>
Mag(a) == IF a < 0 THEN -a ELSE a
Sign(a) == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
(* A level catches the eddies of its sign that exceed it. *)
Caught(l, a) == l # 0 /\ Sign(l) = Sign(a) /\ Mag(l) < Mag(a)
Levels(s, h) == {l \in s.levels : Caught(l, s.amp[h])}
(* Eddies in the catalogue of step t. *)
There(s, t) == {h \in DOMAIN s.amp : s.steps[t][h] # Away /\ Levels(s, h) # {}}
(* Last step at which eddy h was there before step t (0: never). *)
Before(s, t, h) == LET S == {u \in 1..(t - 1) : h \in There(s, u)} IN
                   IF S = {} THEN 0 ELSE CHOOSE u \in S : \A v \in S : v <= u
(* Life of eddy h at step t: it starts another one, hence another track,    *)
(* when it was missing at more than ntimes steps. *)
RECURSIVE Life(_, _, _)
Life(s, t, h) == LET u == Before(s, t, h) IN
                 IF u = 0 THEN 1 ELSE Life(s, u, h) + IF t - u - 1 > s.ntimes THEN 1 ELSE 0
=============================================================================
