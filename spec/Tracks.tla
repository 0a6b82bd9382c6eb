-------------------------------- MODULE Tracks --------------------------------
(***************************************************************************)
(* Model of tracking in time: every history of TIMES time steps with up to  *)
(* DETS detections each, on a line.                                         *)
(***************************************************************************)
EXTENDS TracksOps, Json
CONSTANTS TIMES, DETS, POSITIONS, RADII, NTIMES, EMIT
VARIABLES dets,    \* all detections so far: sequence of [t, x, r]
          last,    \* tracks: last time step and detection of each
          track,   \* track of each detection
          time, ntimes, hist
vars == <<dets, last, track, time, ntimes, hist>>
Det == [x : POSITIONS, r : RADII]
Abs(a) == IF a < 0 THEN -a ELSE a

Init == /\ dets = <<>> /\ last = <<>> /\ track = <<>> /\ time = 0
        /\ ntimes \in NTIMES /\ hist = <<>>

Distance(all, n, p) == 2 * Abs(all[n].x - all[p].x)
Reach(all, n) == 2 * all[n].r - 1

Step(new) ==
  LET all == dets \o [k \in DOMAIN new |-> [t |-> time, x |-> new[k].x, r |-> new[k].r]]
      DD(n, p) == Distance(all, n, p)
      RR(n) == Reach(all, n)
      N == (Len(dets) + 1)..Len(all)
      Number(c) == LET fresh == {m \in N : c[m] = None} IN
        [n \in N |-> IF c[n] # None THEN c[n] ELSE Len(last) + Cardinality({m \in fresh : m <= n})]
  IN /\ time < TIMES
     /\ \E c \in Continuations(DD, RR, 0, last, time, ntimes, N) :
          LET as == Number(c) IN
          /\ track' = [n \in DOMAIN all |-> IF n \in N THEN as[n] ELSE track[n]]
          /\ last' = Update(last, time, as)
     /\ dets' = all
     /\ time' = time + 1
     /\ hist' = Append(hist, [k \in DOMAIN new |-> <<new[k].x, new[k].r>>])
     /\ UNCHANGED ntimes
Next == \E m \in 0..DETS : \E new \in [1..m -> Det] : Step(new)
(* Random histories, for simulation. *)
SimNext == \E m \in {RandomElement(0..(DETS + 0 * time))} : \E new \in {RandomElement([1..m -> Det])} : Step(new)
SimSpec == Init /\ [][SimNext]_vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ DOMAIN track = DOMAIN dets
          /\ \A n \in DOMAIN track : track[n] \in DOMAIN last
(* Every detection is in one track, and a track has one detection per time. *)
Partition == \A n, m \in DOMAIN dets : n # m /\ track[n] = track[m] => dets[n].t # dets[m].t
(* Consecutive detections of a track are within reach and not too far apart in time. *)
Linked == \A n, m \in DOMAIN dets :
            /\ n # m /\ track[n] = track[m] /\ dets[n].t < dets[m].t
            /\ ~\E k \in DOMAIN dets : track[k] = track[n] /\ dets[n].t < dets[k].t /\ dets[k].t < dets[m].t
            => /\ dets[m].t - dets[n].t - 1 <= ntimes
               /\ Distance(dets, m, n) < Reach(dets, m)
(* Tracks are numbered by first appearance. *)
Numbered == \A i, j \in DOMAIN last : i < j =>
              LET First(k) == CHOOSE t \in 0..TIMES : /\ \E n \in DOMAIN dets : track[n] = k /\ dets[n].t = t
                                                      /\ \A n \in DOMAIN dets : track[n] = k => dets[n].t >= t
              IN First(i) <= First(j)
LastRight == \A i \in DOMAIN last : /\ track[last[i].d] = i /\ dets[last[i].d].t = last[i].t
                                    /\ \A n \in DOMAIN dets : track[n] = i => dets[n].t <= last[i].t
(* What is known never changes. *)
Stable == [][\A n \in DOMAIN track : track'[n] = track[n]]_vars
(* A track that missed more than ntimes steps has ended. *)
Ended == [][\A i \in DOMAIN last : time - 1 - last[i].t > ntimes => last'[i] = last[i]]_vars
(* The constructive and the relational forms agree. *)
Relational == [][LET N == (DOMAIN dets') \ (DOMAIN dets)
                     as == [n \in N |-> track'[n]]
                     DD(n, p) == Distance(dets', n, p)
                     RR(n) == Reach(dets', n)
                 IN /\ ~TwoDetections(as) /\ ~BadNumbers(last, as) /\ ~RevivesEnded(last, time, ntimes, as)
                    /\ \A n \in N : /\ ~WronglyContinued(DD, RR, 0, last, time, ntimes, as, n)
                                    /\ ~WronglyNew(DD, RR, 0, last, time, ntimes, as, n)]_vars
(* Histories to replay into the implementation. *)
Emit == (EMIT /\ time = TIMES) => PrintT(<<"HIST", ToJson([ntimes |-> ntimes, hist |-> hist])>>)
=============================================================================
