------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* A record of moving kernels, made frame by frame: each frame depends on   *)
(* its own centre only.                                                     *)
(***************************************************************************)
EXTENDS KernelsOps
CONSTANTS SIZE, STEPS, CENTRES
VARIABLES track, frames
vars == <<track, frames>>
Grid == 0..(SIZE - 1)
Frame(c) == [p \in Grid \X Grid |-> Exponent(c, p[1], p[2])]
Init == track \in [1..STEPS -> CENTRES \X CENTRES] /\ frames = <<>>
Next == Len(frames) < STEPS /\ frames' = Append(frames, Frame(track[Len(frames) + 1])) /\ UNCHANGED track
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inside(c) == c[1] \in 0..(2 * SIZE - 2) /\ c[2] \in 0..(2 * SIZE - 2)
(* The peak is one, at the centre when it is a grid point, and at its neighbours otherwise. *)
Peak == \A k \in DOMAIN frames : LET c == track[k] IN
  Inside(c) => \A p \in Grid \X Grid :
     /\ (2 * p[1] = c[1] /\ 2 * p[2] = c[2]) <=> frames[k][p] = 0
     /\ (\A q \in Grid \X Grid : frames[k][p] <= frames[k][q]) => (2 * p[1] - c[1]) \in -1..1 /\ (2 * p[2] - c[2]) \in -1..1
(* Half of the peak (E = 1) at half of the width, in every direction. *)
Half == \A k \in DOMAIN frames : \A p \in Grid \X Grid : \A f \in 1..(2 * SIZE) :
  frames[k][p] = Sq(f) <=> 4 * (Sq(2 * p[1] - track[k][1]) + Sq(2 * p[2] - track[k][2])) = Sq(f)
(* Moving the centre by a grid step moves the frame. *)
Moves == \A k \in 2..Len(frames) : LET a == track[k - 1]  b == track[k] IN
  (b[1] = a[1] + 2 /\ b[2] = a[2]) => \A p \in Grid \X Grid : p[1] + 1 \in Grid => frames[k][<<p[1] + 1, p[2]>>] = frames[k - 1][p]
Stable == [][\A k \in DOMAIN frames : frames'[k] = frames[k]]_vars
Ends == <>(Len(frames) = STEPS)
=============================================================================
