------------------------------ MODULE PlotsOps -------------------------------
(***************************************************************************)
(* What a picture of a catalogue has to show.  An entry of the catalogue is *)
(* <<path, key>>: the key is its level, or the reason why it was discarded. *)
(* A mark of the picture is <<path, colour>>; the legend is a set of        *)
(* <<key, colour>>.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Keys(cat) == {e[2] : e \in cat}
Paths(S) == {e[1] : e \in S}
\* Everything in the catalogue is drawn, and nothing else is.
NotDrawn(cat, marks) == Paths(cat) \ Paths(marks)
Invented(cat, marks) == Paths(marks) \ Paths(cat)
\* A mark in the colour of another key.
Colours(legend, k) == {l[2] : l \in {l \in legend : l[1] = k}}
Miscoloured(cat, marks, legend) ==
  {m \in marks : LET own == {e[2] : e \in {e \in cat : e[1] = m[1]}}
                     known == {k \in own : Colours(legend, k) # {}}
                 IN own # {} /\ known = own /\ m[2] \notin UNION {Colours(legend, k) : k \in own}}
\* Different keys look different, and the same key looks the same everywhere.
Confused(cat, marks) ==
  \E m, n \in marks : \E d, e \in cat :
     /\ m[1] = d[1] /\ n[1] = e[1]
     /\ Cardinality({x \in cat : x[1] = d[1]}) = 1 /\ Cardinality({x \in cat : x[1] = e[1]}) = 1
     /\ (d[2] = e[2]) # (m[2] = n[2])
\* A legend names every key, each with one colour of its own.
BadLegend(legend, keys) ==
  \/ \E k \in keys : Cardinality(Colours(legend, k)) # 1
  \/ \E k, l \in keys : k # l /\ Colours(legend, k) \cap Colours(legend, l) # {}
Faithful(cat, marks, legend) ==
  /\ NotDrawn(cat, marks) = {} /\ Invented(cat, marks) = {} /\ Miscoloured(cat, marks, legend) = {} /\ ~Confused(cat, marks)
  /\ legend # {} => ~BadLegend(legend, Keys(cat))
=============================================================================
