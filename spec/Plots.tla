-------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* Drawing a catalogue: the colours are spread over the palette by the      *)
(* number of levels, entries are drawn one after the other and the legend   *)
(* is added at the end when there are few levels.                           *)
(***************************************************************************)
EXTENDS PlotsOps, TLC
CONSTANTS PATHS, LEVELS, PALETTE, FEW, LEGENDBYINDEX
VARIABLES cat, todo, marks, legend, pc
vars == <<cat, todo, marks, legend, pc>>
Catalogues == UNION {[P -> LEVELS] : P \in SUBSET PATHS}
AsSet(f) == {<<p, f[p]>> : p \in DOMAIN f}
\* Levels are numbered in increasing order here; any numbering serves.
Number(k) == Cardinality({l \in Keys(cat) : l < k})
N == Cardinality(Keys(cat))
Colour(k) == IF N = 1 THEN 0 ELSE (Number(k) * (PALETTE - 1)) \div (N - 1)
Init == /\ \E f \in Catalogues : cat = AsSet(f)
        /\ todo = cat /\ marks = {} /\ legend = {} /\ pc = "draw"
Draw == /\ pc = "draw" /\ todo # {}
        /\ \E e \in todo : /\ todo' = todo \ {e}
                           /\ marks' = marks \cup {<<e[1], Colour(e[2])>>}
        /\ UNCHANGED <<cat, legend, pc>>
Label == /\ pc = "draw" /\ todo = {}
         /\ legend' = IF N < FEW THEN {<<k, IF LEGENDBYINDEX THEN Number(k) ELSE Colour(k)>> : k \in Keys(cat)} ELSE {}
         /\ pc' = "done" /\ UNCHANGED <<cat, todo, marks>>
Next == Draw \/ Label
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Shown == pc = "done" => Faithful(cat, marks, legend)
NothingInvented == Invented(cat, marks) = {} /\ ~Confused(cat, marks)
Ends == <>(pc = "done")
=============================================================================
