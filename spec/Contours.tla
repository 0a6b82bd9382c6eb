------------------------------ MODULE Contours ------------------------------
(***************************************************************************)
(* A tracer of the contours of MarchingSquares: a state machine that walks  *)
(* the field edge by edge.  TLC checks on all small fields that the walk,   *)
(* whatever order it starts its curves in, never crosses an edge twice,     *)
(* ends only on the boundary or where it started, and produces exactly the  *)
(* contours of the field.                                                   *)
(***************************************************************************)
EXTENDS MarchingSquares

CONSTANTS FIELDS        \* the fields to walk
VARIABLES fld,          \* the field
          left,         \* crossed edges not visited yet
          path,         \* the curve being walked (<<>> when none)
          done          \* finished curves: <<closed?, path>>
vars == <<fld, left, path, done>>

Init == /\ fld \in FIELDS
        /\ left = Crossed(fld)
        /\ path = <<>>
        /\ done = {}

Entry(e) == LET c == IF e[3] = 0 THEN IF EnteredCell(fld, e)[2] = e[2] THEN <<e[1], e[2] - 1>> ELSE <<e[1], e[2]>>
                       ELSE IF EnteredCell(fld, e)[1] = e[1] THEN <<e[1] - 1, e[2]>> ELSE <<e[1], e[2]>>
            IN ~IsCell(fld, c)
StartOpen(e) == /\ path = <<>> /\ e \in left /\ Entry(e)
                /\ path' = <<e>> /\ left' = left \ {e} /\ UNCHANGED <<fld, done>>
StartClosed(e) == /\ path = <<>> /\ e \in left /\ \A d \in left : ~Entry(d)
                  /\ path' = <<e>> /\ left' = left \ {e} /\ UNCHANGED <<fld, done>>
Last == path[Len(path)]
Step == /\ path # <<>> /\ NextEdge(fld, Last) \in left
        /\ path' = Append(path, NextEdge(fld, Last))
        /\ left' = left \ {NextEdge(fld, Last)}
        /\ UNCHANGED <<fld, done>>
Finish == /\ path # <<>> /\ NextEdge(fld, Last) \notin left
          /\ done' = done \cup {<<NextEdge(fld, Last) # NoEdge, path>>}
          /\ path' = <<>> /\ UNCHANGED <<fld, left>>
Next == (\E e \in left : StartOpen(e) \/ StartClosed(e)) \/ Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoDoubleVisit == \A i, k \in DOMAIN path : i # k => path[i] # path[k]
Adjacent == \A k \in 1..(Len(path) - 1) :
              \E c \in {EnteredCell(fld, path[k])} : {path[k], path[k + 1]} \subseteq CellEdges(c)
(* A walk stops at the boundary or exactly where it started. *)
EndsWell == \A q \in done :
              IF q[1] THEN NextEdge(fld, q[2][Len(q[2])]) = q[2][1]
              ELSE /\ ~IsCell(fld, EnteredCell(fld, q[2][Len(q[2])]))
                   /\ Entry(q[2][1])
Partition == /\ left \cup {path[k] : k \in DOMAIN path} \cup UNION {{q[2][k] : k \in DOMAIN q[2]} : q \in done} = Crossed(fld)
             /\ \A q, r \in done : q # r => {q[2][k] : k \in DOMAIN q[2]} \cap {r[2][k] : k \in DOMAIN r[2]} = {}
(* Confluence: whatever the order, the walk ends with the contours of the field. *)
Complete == (left = {} /\ path = <<>>) =>
              LET c == ContoursOf(fld) IN
              /\ {q[2] : q \in {r \in done : ~r[1]}} = c.open
              /\ Cardinality({q \in done : q[1]}) = Cardinality(c.closed)
              /\ \A q \in done : q[1] => \E p \in c.closed : SameCycle(q[2], p)
(* Level set: vertices lie between both ends of their edge. *)
OnEdge == \A e \in Crossed(fld) :
            LET p == Position(fld, e) a == EndA(e) b == EndB(e) IN
            p = <<NA, NA>> \/
            /\ SC * fld.x[a[1]] <= p[1] /\ p[1] <= SC * fld.x[b[1]]
            /\ SC * fld.y[a[2]] <= p[2] /\ p[2] <= SC * fld.y[b[2]]
Terminates == <>(left = {} /\ path = <<>>)

(* Small fields for TLC. *)
Mk(w, h, v) == [w |-> w, h |-> h, l |-> 1, x |-> [i \in 1..w |-> i], y |-> [j \in 1..h |-> j],
                z |-> [j \in 1..h |-> [i \in 1..w |-> v[(j - 1) * w + i]]]]
Fields33 == {Mk(3, 3, v) : v \in [1..9 -> {0, 3}]}
Fields33Ties == {Mk(3, 3, v) : v \in [1..9 -> {0, 1, 3}]}
Fields42NA == {Mk(4, 2, v) : v \in [1..8 -> {0, 3, NA}]}
Fields34 == {Mk(3, 4, v) : v \in [1..12 -> {0, 2}]}
=============================================================================
