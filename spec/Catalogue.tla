------------------------------ MODULE Catalogue ------------------------------
(***************************************************************************)
(* Model of the merge of levels: every history of up to LEVELS levels with  *)
(* up to DETS detections each, on a line.  A detection is a record; its     *)
(* identity is its number.                                                  *)
(***************************************************************************)
EXTENDS CatalogueOps, Json
CONSTANTS LEVELS, DETS, POSITIONS, RADII, SCORES, EMIT
VARIABLES dets,     \* all detections so far: sequence of [x, r, e, g, lev]
          cat,      \* catalogue: sequence of detection numbers
          lev,      \* levels done
          hist,     \* detections of each level, for replay
          fate      \* what became of each detection
vars == <<dets, cat, lev, hist, fate>>

Det == [x : POSITIONS, r : RADII, e : SCORES, g : SCORES]
Abs(a) == IF a < 0 THEN -a ELSE a

Init == dets = <<>> /\ cat = <<>> /\ lev = 0 /\ fate = <<>> /\ hist = <<>>
Level(new) ==
  LET all == dets \o new
      DD(n, p) == 2 * Abs(all[n].x - all[p].x)
      RR(n) == 2 * all[n].r - 1
      ee == [n \in DOMAIN all |-> all[n].e]   gg == [n \in DOMAIN all |-> all[n].g]
      nums == [k \in DOMAIN new |-> Len(dets) + k]
  IN /\ lev < LEVELS
     /\ lev' = lev + 1
     /\ dets' = all
     /\ hist' = Append(hist, [k \in DOMAIN new |-> <<new[k].x, new[k].r, new[k].e, new[k].g>>])
     /\ \E c \in MergeLevel(DD, RR, 0, ee, gg, cat, nums) :
          /\ cat' = c
          /\ fate' = [n \in DOMAIN all |->
                        IF n \in Elems(c) THEN "in"
                        ELSE IF n \in DOMAIN fate /\ fate[n] # "in" THEN fate[n]
                        ELSE IF n \in DOMAIN fate THEN "replaced" ELSE "dropped"]
Next == \E m \in 0..DETS : \E new \in [1..m -> Det] : Level(new)
(* Random histories, for simulation. *)
SimNext == \E m \in {RandomElement(0..(DETS + 0 * lev))} : \E new \in {RandomElement([1..m -> Det])} : Level(new)
SimSpec == Init /\ [][SimNext]_vars
Spec == Init /\ [][Next]_vars

In == {n \in DOMAIN dets : fate[n] = "in"}
(* No entry is lost or duplicated. *)
Faithful == Elems(cat) = In /\ Len(cat) = Cardinality(In)
(* A catalogue never gets shorter, and an entry keeps its identifier or     *)
(* gives it to a better detection within whose radius it was.               *)
Stable == [][/\ Len(cat') >= Len(cat)
             /\ \A k \in DOMAIN cat :
                  \/ cat'[k] = cat[k]
                  \/ /\ dets'[cat'[k]].e < dets'[cat[k]].e
                     /\ dets'[cat'[k]].g < dets'[cat[k]].g
                     /\ 2 * Abs(dets'[cat'[k]].x - dets'[cat[k]].x) < 2 * dets'[cat'[k]].r - 1]_vars
(* A detection is only dropped next to an entry that is not worse in some score. *)
DropsExplained == [][\A n \in (DOMAIN dets') \ (DOMAIN dets) : fate'[n] = "dropped" =>
                       \E k \in DOMAIN cat : /\ 2 * Abs(dets'[n].x - dets[cat[k]].x) < 2 * dets'[n].r - 1
                                             /\ ~(dets'[n].e < dets[cat[k]].e /\ dets'[n].g < dets[cat[k]].g)]_vars
(* Replaced entries gave way to someone. *)
Accounted == \A n \in DOMAIN dets : fate[n] \in {"in", "dropped", "replaced"}
Emit == (EMIT /\ lev = LEVELS) => PrintT(<<"HIST", ToJson([hist |-> hist])>>)
=============================================================================
