----------------------------- MODULE CatalogueOps -----------------------------
(***************************************************************************)
(* The catalogue of one snapshot: the detections of each level are merged,  *)
(* in order, into one entry per eddy.  A catalogue is the sequence of its   *)
(* entries by identifier.                                                   *)
(***************************************************************************)
EXTENDS Matching

(* e and g are the recorded scores; a new detection replaces an entry only  *)
(* when both are strictly lower.                                            *)
Better(e, g, n, p) == e[p] > e[n] /\ g[p] > g[n]

(* All the catalogues that may follow from catalogue cat and the detections *)
(* dets (a sequence) of the next level.                                     *)
MergeLevel(D(_, _), R(_), M, e, g, cat, dets) ==
  LET P == Elems(cat)  N == Elems(dets)
      Result(f, win) ==
        [k \in DOMAIN cat |-> IF cat[k] \in DOMAIN win THEN win[cat[k]] ELSE cat[k]]
        \o SelectSeq(dets, LAMBDA n : /\ n \notin {win[p] : p \in DOMAIN win}
                                      /\ f[n] = None \/ Better(e, g, n, f[n]))
      Results(f) ==
        LET better == {n \in N : f[n] # None /\ Better(e, g, n, f[n])}
            targets == {f[n] : n \in better}
            wins == Choices(targets, [p \in targets |-> Closest(D, M, {n \in better : f[n] = p}, p)])
        IN {Result(f, w) : w \in wins}
  IN UNION {Results(f) : f \in Choices(N, [n \in N |-> Options(D, R, M, n, P)])}

(* Catalogues after a sequence of levels (each a sequence of detections). *)
RECURSIVE MergeAll(_, _, _, _, _, _, _)
MergeAll(D(_, _), R(_), M, e, g, cats, levels) ==
  IF levels = <<>> THEN cats
  ELSE MergeAll(D, R, M, e, g, UNION {MergeLevel(D, R, M, e, g, c, Head(levels)) : c \in cats}, Tail(levels))
=============================================================================
