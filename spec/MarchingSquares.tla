--------------------------- MODULE MarchingSquares ---------------------------
(***************************************************************************)
(* Contours of a gridded field at a level (marching squares), as relied     *)
(* upon by the detection of eddies.                                         *)
(*                                                                         *)
(* A field is a record [w, h, z, l, x, y]: z[j][i] is the integer value at  *)
(* column i and row j, or NA when missing; l is the level, in the same      *)
(* units; x[i] and y[j] are the integer coordinates.  Positions are scaled  *)
(* by SC, so that every interpolated crossing is an exact integer.          *)
(*                                                                         *)
(* This module defines what the contours ARE: a successor relation on      *)
(* crossed edges and its maximal paths.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NA == 99999
SC == 720720

IsUp(f, i, j) == LET v == f.z[j][i] IN v # NA /\ v > f.l

(* <<i, j, 0>> joins (i, j) and (i+1, j); <<i, j, 1>> joins (i, j) and (i, j+1). *)
EndA(e) == <<e[1], e[2]>>
EndB(e) == IF e[3] = 0 THEN <<e[1] + 1, e[2]>> ELSE <<e[1], e[2] + 1>>
UpP(f, p) == IsUp(f, p[1], p[2])

GridEdges(f) == {<<i, j, 0>> : i \in 1..(f.w - 1), j \in 1..f.h}
                  \cup {<<i, j, 1>> : i \in 1..f.w, j \in 1..(f.h - 1)}
Crossed(f) == {e \in GridEdges(f) : UpP(f, EndA(e)) # UpP(f, EndB(e))}

HighEnd(f, e) == IF UpP(f, EndA(e)) THEN EndA(e) ELSE EndB(e)
LowEnd(f, e) == IF UpP(f, EndA(e)) THEN EndB(e) ELSE EndA(e)

(* The cell <<i, j>> has corners (i, j) .. (i+1, j+1). A contour keeps the  *)
(* high end on its left, so the crossing of an edge has a direction, and    *)
(* enters this cell (which may be outside of the domain).                   *)
EnteredCell(f, e) ==
  IF e[3] = 0 THEN IF UpP(f, EndA(e)) THEN <<e[1], e[2]>> ELSE <<e[1], e[2] - 1>>
              ELSE IF UpP(f, EndB(e)) THEN <<e[1], e[2]>> ELSE <<e[1] - 1, e[2]>>
IsCell(f, c) == c[1] \in 1..(f.w - 1) /\ c[2] \in 1..(f.h - 1)
CellEdges(c) == {<<c[1], c[2], 0>>, <<c[1] + 1, c[2], 1>>, <<c[1], c[2] + 1, 0>>, <<c[1], c[2], 1>>}
Corners(c) == {<<c[1], c[2]>>, <<c[1] + 1, c[2]>>, <<c[1], c[2] + 1>>, <<c[1] + 1, c[2] + 1>>}

MeanUp(f, c) ==
  LET a == f.z[c[2]][c[1]]      b == f.z[c[2]][c[1] + 1]
      d == f.z[c[2] + 1][c[1]]  g == f.z[c[2] + 1][c[1] + 1]
  IN /\ NA \notin {a, b, d, g}
     /\ a + b + d + g > 4 * f.l

NoEdge == <<0, 0, 0>>
(* The next edge of the contour that crosses e, NoEdge on the boundary. *)
NextEdge(f, e) ==
  LET c == EnteredCell(f, e) IN
  IF ~IsCell(f, c) THEN NoEdge
  ELSE LET other == {d \in CellEdges(c) : d # e /\ UpP(f, EndA(d)) # UpP(f, EndB(d))} IN
       IF Cardinality(other) = 1 THEN CHOOSE d \in other : TRUE
       ELSE LET k == IF MeanUp(f, c) THEN LowEnd(f, e) ELSE HighEnd(f, e)
            IN CHOOSE d \in other : k \in {EndA(d), EndB(d)}

(* Scaled position of the crossing of an edge. *)
Position(f, e) ==
  LET a == EndA(e)  b == EndB(e)
      va == f.z[a[2]][a[1]]  vb == f.z[b[2]][b[1]]
  IN IF NA \in {va, vb} THEN <<NA, NA>>
     ELSE LET t == (SC * (f.l - va)) \div (vb - va)
          IN <<SC * f.x[a[1]] + (f.x[b[1]] - f.x[a[1]]) * t, SC * f.y[a[2]] + (f.y[b[2]] - f.y[a[2]]) * t>>

RECURSIVE Follow(_, _, _)
Follow(nxt, path, first) ==
  LET n == nxt[path[Len(path)]] IN
  IF n = NoEdge \/ n = first THEN path ELSE Follow(nxt, Append(path, n), first)

RECURSIVE Closed(_, _)
Closed(nxt, left) ==
  IF left = {} THEN {}
  ELSE LET e == CHOOSE x \in left : TRUE
           p == Follow(nxt, <<e>>, e)
       IN {p} \cup Closed(nxt, left \ {p[k] : k \in DOMAIN p})

(* All contours: sets of paths (sequences of edges). A closed one is given  *)
(* from an arbitrary edge, without repeating it.                            *)
ContoursOf(f) ==
  LET x == Crossed(f)
      nxt == [e \in x |-> NextEdge(f, e)]
      entries == x \ {nxt[e] : e \in x}
      open == {Follow(nxt, <<e>>, NoEdge) : e \in entries}
      used == UNION {{p[k] : k \in DOMAIN p} : p \in open}
  IN [open |-> open, closed |-> Closed(nxt, x \ used)]

Points(f, p) == [k \in DOMAIN p |-> Position(f, p[k])]

(* Sequences equal up to the starting point. *)
SameCycle(a, b) ==
  /\ Len(a) = Len(b)
  /\ \E r \in 0..(Len(a) - 1) : \A k \in 1..Len(a) : a[k] = b[((k - 1 + r) % Len(a)) + 1]
=============================================================================
