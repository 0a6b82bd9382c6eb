-------------------------------- MODULE Scene --------------------------------
(***************************************************************************)
(* Scenes and what tracking makes of them.  The tracking rules (TracksOps)  *)
(* only see detections and their distances; on every scene they must give   *)
(* one track to each life of each eddy.                                     *)
(***************************************************************************)
EXTENDS SceneOps, Json, TLC
T == INSTANCE TracksOps
CONSTANTS TIMES, EDDIES, XS, YS, AMPS, LEVELS, NTIMES, HOME, EMIT
VARIABLES scene,   \* the scene so far
          where,   \* where each eddy is, or was when it vanished
          dets,    \* detections: sequence of [h, t, x, y]
          last, track
FewAmps == {-5, 10}
FewLevels == {-3, 6}
ManyAmps == {-10, -5, 5, 10}
ManyLevels == {-6, -3, -2, 0, 2, 3, 6}
Steps3 == -2..2
vars == <<scene, where, dets, last, track>>

time == Len(scene.steps)
Init == /\ scene \in {[amp |-> a, levels |-> l, ntimes |-> n, steps |-> <<>>] : a \in [1..EDDIES -> AMPS], l \in SUBSET LEVELS, n \in NTIMES}
        /\ where = [h \in 1..EDDIES |-> <<0, 0>>]
        /\ dets = <<>> /\ last = <<>> /\ track = <<>>

(* Ten times the square of a distance in grid steps; the smallest eddy has a radius of more than one and a half steps. *)
Distance(all, n, p) == LET dx == all[n].x - all[p].x  dy == all[n].y - all[p].y IN 10 * (dx * dx + dy * dy)
Reach == 24
Sorted(S) == [k \in 1..Cardinality(S) |-> CHOOSE h \in S : Cardinality({g \in S : g < h}) = k - 1]

Step(pos) ==
  LET s2 == [scene EXCEPT !.steps = Append(@, pos)]
      found == Sorted(There(s2, time + 1))
      all == dets \o [k \in DOMAIN found |-> LET h == found[k] IN
                      [h |-> h, t |-> time + 1, x |-> HOME * (h % 2) + pos[h][1], y |-> HOME * (h \div 2) + pos[h][2]]]
      DD(n, p) == Distance(all, n, p)
      RR(n) == Reach
      N == (Len(dets) + 1)..Len(all)
  IN /\ time < TIMES
     /\ scene' = s2
     /\ where' = [h \in 1..EDDIES |-> IF pos[h] = Away THEN where[h] ELSE pos[h]]
     /\ dets' = all
     /\ \E c \in T!Continuations(DD, RR, 0, last, time + 1, scene.ntimes, N) :
          LET fresh == {m \in N : c[m] = T!None}
              as == [n \in N |-> IF c[n] # T!None THEN c[n] ELSE Len(last) + Cardinality({m \in fresh : m <= n})]
          IN /\ track' = [n \in DOMAIN all |-> IF n \in N THEN as[n] ELSE track[n]]
             /\ last' = T!Update(last, time + 1, as)

Near(p) == {q \in XS \X YS : Mag(q[1] - p[1]) <= 1 /\ Mag(q[2] - p[2]) <= 1}
Next == \E pos \in [1..EDDIES -> (XS \X YS) \cup {Away}] :
          /\ \A h \in 1..EDDIES : pos[h] = Away \/ pos[h] \in Near(where[h])
          /\ Step(pos)
Spec == Init /\ [][Next]_vars
(* Random steps, for simulation. *)
SimNext == \E pos \in {[h \in 1..EDDIES |-> IF RandomElement(1..(10 + 0 * time)) <= 3 THEN Away ELSE RandomElement(Near(where[h]))]} : Step(pos)
SimSpec == Init /\ [][SimNext]_vars

-----------------------------------------------------------------------------
(* One track for each life of each eddy, and nothing else. *)
Followed == \A n, m \in DOMAIN dets :
              (track[n] = track[m]) <=> /\ dets[n].h = dets[m].h
                                        /\ Life(scene, dets[n].t, dets[n].h) = Life(scene, dets[m].t, dets[m].h)
(* A loner that is never missing for long has a single track. *)
Single == \A h \in 1..EDDIES :
            (\A t \in 1..time : Before(scene, t, h) # 0 => t - Before(scene, t, h) - 1 <= scene.ntimes)
            => Cardinality({track[n] : n \in {m \in DOMAIN dets : dets[m].h = h}}) <= 1
Emit == (EMIT /\ time = TIMES) => PrintT(<<"HIST", ToJson(scene)>>)
=============================================================================
