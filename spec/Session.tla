------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A process that detects on several objects.  All of them share the two    *)
(* registries (contours identified and discarded so far); an operation may  *)
(* fail half way and leave them as they are.  Settings belong to each       *)
(* object.  What an operation returns must only depend on the settings of   *)
(* its object and on its arguments: Pure.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS OBJECTS, LEVELS, TIMES, CRITERIA, FILTERS, MAXOPS, FORGET, EMIT
VARIABLES stored, thrown,      \* registries of the process
          crit, filt, loaded,  \* settings of each object; the snapshot it has loaded (-1: none) and with which filter
          hist, last           \* operations so far; what the last one returned and what it should have
vars == <<stored, thrown, crit, filt, loaded, hist, last>>

(* The contours of a snapshot at a level: <<number, outcome>>, in the order *)
(* in which they are met; which ones are identified depends on the criteria.*)
Contours(o, t, f, l) == [k \in 1..((o + t + f + l) % 4) |-> <<o, t, f, l, k>>]
Identified(c, cr) == (c[1] + c[4] + c[5] + cr) % 2 = 0
Pick(s, cr, yes) == SelectSeq(s, LAMBDA c : Identified(c, cr) = yes)
Pure(o, t, f, l, cr) == <<Pick(Contours(o, t, f, l), cr, TRUE), Pick(Contours(o, t, f, l), cr, FALSE)>>
None == <<<<>>, <<>>>>

Init == /\ stored = <<>> /\ thrown = <<>> /\ hist = <<>> /\ last = <<None, None>>
        /\ crit = [o \in OBJECTS |-> 0] /\ filt = [o \in OBJECTS |-> 0] /\ loaded = [o \in OBJECTS |-> <<-1, 0>>]
Did(op) == hist' = Append(hist, op)
Load(o, t) == loaded' = [loaded EXCEPT ![o] = <<t, filt[o]>>] /\ Did(<<"load", o, t, 0>>) /\ UNCHANGED <<stored, thrown, crit, filt, last>>
Criteria(o, c) == c # crit[o] /\ crit' = [crit EXCEPT ![o] = c] /\ Did(<<"criteria", o, c, 0>>) /\ UNCHANGED <<stored, thrown, filt, loaded, last>>
Filter(o, f) == f # filt[o] /\ filt' = [filt EXCEPT ![o] = f] /\ Did(<<"filter", o, f, 0>>) /\ UNCHANGED <<stored, thrown, crit, loaded, last>>
(* A detection starts by forgetting whatever the registries hold. *)
Old(r) == IF FORGET THEN <<>> ELSE r
Detect(o, l) ==
  /\ loaded[o][1] # -1
  /\ LET c == Contours(o, loaded[o][1], loaded[o][2], l)
         s == Old(stored) \o Pick(c, crit[o], TRUE)  d == Old(thrown) \o Pick(c, crit[o], FALSE)
     IN /\ last' = <<<<s, d>>, Pure(o, loaded[o][1], loaded[o][2], l, crit[o])>>
        (* with eddies the registries are left empty, otherwise as they are *)
        /\ stored' = IF s # <<>> THEN <<>> ELSE s
        /\ thrown' = IF s # <<>> THEN <<>> ELSE d
  /\ Did(<<"detect", o, l, 0>>) /\ UNCHANGED <<crit, filt, loaded>>
(* A detection that fails after n contours. *)
Fail(o, l, n) ==
  /\ loaded[o][1] # -1
  /\ LET c == Contours(o, loaded[o][1], loaded[o][2], l) p == SubSeq(c, 1, IF n < Len(c) THEN n ELSE Len(c)) IN
     /\ stored' = Old(stored) \o Pick(p, crit[o], TRUE)
     /\ thrown' = Old(thrown) \o Pick(p, crit[o], FALSE)
  /\ last' = <<None, None>>
  /\ Did(<<"fail", o, l, n>>) /\ UNCHANGED <<crit, filt, loaded>>
(* Tracking detects all levels of all times; the snapshot that is loaded afterwards is not specified. *)
RECURSIVE Many(_, _, _)
Many(o, pairs, res) ==
  IF pairs = <<>> THEN res
  ELSE LET c == Contours(o, pairs[1][1], filt[o], pairs[1][2]) IN Many(o, Tail(pairs), <<res[1] \o Pick(c, crit[o], TRUE), res[2] \o Pick(c, crit[o], FALSE)>>)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Pairs(n) == SeqOf({t \in TIMES : t < n} \X LEVELS)
Track(o, n) ==
  /\ LET r == Many(o, Pairs(n), None) IN
     /\ last' = <<<<IF FORGET THEN r[1] ELSE stored \o r[1], <<>>>>, <<r[1], <<>>>>>>
     /\ stored' = <<>> /\ thrown' = <<>>
  /\ loaded' = [loaded EXCEPT ![o] = <<-1, 0>>]
  /\ Did(<<"track", o, n, 0>>) /\ UNCHANGED <<crit, filt>>

Next == /\ Len(hist) < MAXOPS
        /\ \E o \in OBJECTS : \/ \E t \in TIMES : Load(o, t)
                              \/ \E c \in CRITERIA : Criteria(o, c)
                              \/ \E f \in FILTERS : Filter(o, f)
                              \/ \E l \in LEVELS : Detect(o, l) \/ (\E n \in 0..2 : Fail(o, l, n))
                              \/ \E n \in TIMES : Track(o, n + 1)
Spec == Init /\ [][Next]_vars
(* Random histories with more detections. *)
SimNext == /\ Len(hist) < MAXOPS
           /\ \E o \in {RandomElement(OBJECTS)} : \E w \in {RandomElement(1..(10 + 0 * Len(hist)))} :
              IF loaded[o][1] = -1 /\ w > 3 THEN \E t \in {RandomElement(TIMES)} : Load(o, t)
              ELSE IF w = 1 THEN \E c \in {RandomElement(CRITERIA \ {crit[o]})} : Criteria(o, c)
              ELSE IF w = 2 THEN \E f \in {RandomElement(FILTERS \ {filt[o]})} : Filter(o, f)
              ELSE IF w = 3 \/ loaded[o][1] = -1 THEN \E t \in {RandomElement(TIMES)} : Track(o, t + 1)
              ELSE IF w <= 5 THEN \E l \in {RandomElement(LEVELS)} : \E n \in {RandomElement(0..4)} : Fail(o, l, n)
              ELSE IF w = 6 THEN \E t \in {RandomElement(TIMES)} : Load(o, t)
              ELSE \E l \in {RandomElement(LEVELS)} : Detect(o, l)
SimSpec == Init /\ [][SimNext]_vars

HistoryFree == last[1] = last[2]
SettingsKept == [][\A o \in OBJECTS : (crit'[o] # crit[o] => hist'[Len(hist')][1] = "criteria" /\ hist'[Len(hist')][2] = o)
                                     /\ (filt'[o] # filt[o] => hist'[Len(hist')][1] = "filter" /\ hist'[Len(hist')][2] = o)]_vars
Emit == (EMIT /\ Len(hist) = MAXOPS) => PrintT(<<"HIST", ToJson(hist)>>)
View == <<stored, thrown, crit, filt, loaded, last, Len(hist), IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
=============================================================================
