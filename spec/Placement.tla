------------------------------ MODULE Placement ------------------------------
(***************************************************************************)
(* Placement of eddies that don't interact, on a lattice: for each frame    *)
(* all of them are moved, one after the other, to a random position that    *)
(* is far enough from all the others where they are at the moment; after    *)
(* TRIES positions that are too close the last one is kept.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NX, NY, N, R2, TRIES, FRAMES
VARIABLES pos, k, tries, frame, gaveup
vars == <<pos, k, tries, frame, gaveup>>
Cells == (1..NX) \X (1..NY)
D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Far(p, i) == \A j \in 1..N : j # i => D2(p, pos[j]) >= R2

Init == pos \in [1..N -> Cells] /\ k = 1 /\ tries = 0 /\ frame = 1 /\ gaveup = FALSE
Try(p) ==
  /\ frame <= FRAMES
  /\ pos' = [pos EXCEPT ![k] = p]
  /\ IF Far(p, k) \/ tries + 1 = TRIES
     THEN /\ tries' = 0
          /\ gaveup' = (gaveup \/ ~Far(p, k))
          /\ IF k = N THEN k' = 1 /\ frame' = frame + 1 ELSE k' = k + 1 /\ UNCHANGED frame
     ELSE tries' = tries + 1 /\ UNCHANGED <<k, frame, gaveup>>
Next == \E p \in Cells : Try(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* At the end of each frame all of them are apart, unless it gave up. *)
Separated == k = 1 /\ tries = 0 /\ frame > 1 /\ ~gaveup => \A i, j \in 1..N : i # j => D2(pos[i], pos[j]) >= R2
Placed == \A i \in 1..(k - 1) : ~gaveup => \A j \in 1..(i - 1) : D2(pos[i], pos[j]) >= R2
Ends == <>(frame > FRAMES)
=============================================================================
