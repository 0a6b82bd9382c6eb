------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The same field stored in different ways.  The state is the stored array  *)
(* itself (a function from positions to values) with the order of its       *)
(* dimensions, where its coordinates are, and the time steps stored around  *)
(* the original ones, and the files that hold it, each with some of the     *)
(* time steps.  Every action stores the array again in another way          *)
(* and must keep what can be read from it: View.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NT, MAXPAD, EMIT
VARIABLES dims,     \* order of the dimensions: a permutation of <<"t", "y", "x">>, or of <<"y", "x">>
          array,    \* function from positions (one index per dimension) to values
          coords,   \* "dims", "vectors", "yx", "xy": where the coordinates are
          before, after,  \* time steps of something else stored around it
          files           \* number of time steps in each file; none when it is in memory
vars == <<dims, array, coords, before, after, files>>
NY == 2
NX == 3
Field(t, j, i) == 100 * t + 10 * j + i
Other == 999
Ix(d) == CHOOSE n \in DOMAIN dims : dims[n] = d
HasTime == \E n \in DOMAIN dims : dims[n] = "t"
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
(* The array in one file, counted from its own first time step. *)
Piece(n) == LET d == Ix("t")  o == SumTo(files, n - 1) IN
            [p \in {[q EXCEPT ![d] = q[d] - o] : q \in {q \in DOMAIN array : q[d] > o /\ q[d] <= o + files[n]}} |-> array[[p EXCEPT ![d] = p[d] + o]]]
Where(t, j, i) == [n \in DOMAIN dims |-> IF dims[n] = "t" THEN t ELSE IF dims[n] = "y" THEN j ELSE i]
At(t, j, i) ==
  IF Len(files) <= 1 THEN array[Where(before + t, j, i)]
  ELSE LET n == CHOOSE n \in DOMAIN files : SumTo(files, n - 1) < before + t /\ before + t <= SumTo(files, n)
       IN Piece(n)[Where(before + t - SumTo(files, n - 1), j, i)]
View == [t \in 1..NT |-> [j \in 1..NY |-> [i \in 1..NX |-> At(t, j, i)]]]
Steps == before + NT + after

Init == /\ dims = <<"t", "y", "x">> /\ coords = "dims" /\ before = 0 /\ after = 0 /\ files = <<>>
        /\ array = [p \in (1..NT) \X (1..NY) \X (1..NX) |-> Field(p[1], p[2], p[3])]
Exchange(p, a, b) == [n \in DOMAIN p |-> IF n = a THEN p[b] ELSE IF n = b THEN p[a] ELSE p[n]]
Transpose == \E a, b \in DOMAIN dims :
  /\ a < b
  /\ dims' = Exchange(dims, a, b)
  /\ array' = [p \in {Exchange(q, a, b) : q \in DOMAIN array} |-> array[Exchange(p, a, b)]]
  /\ UNCHANGED <<coords, before, after, files>>
Recoord == \E c \in {"dims", "vectors", "yx", "xy"} : c # coords /\ coords' = c /\ UNCHANGED <<dims, array, before, after, files>>
(* One more time step before or after. *)
Pad(front) ==
  /\ HasTime /\ before + after < MAXPAD /\ files = <<>>
  /\ LET n == Ix("t")
         Span(s) == {p \in [DOMAIN dims -> 1..(s + NY + NX)] : \A m \in DOMAIN dims : p[m] <= (IF dims[m] = "t" THEN s ELSE IF dims[m] = "y" THEN NY ELSE NX)}
         shift == IF front THEN 1 ELSE 0
         Old(p) == [p EXCEPT ![n] = p[n] - shift]
     IN array' = [p \in Span(Steps + 1) |-> IF Old(p) \in DOMAIN array THEN array[Old(p)] ELSE Other]
  /\ before' = IF front THEN before + 1 ELSE before
  /\ after' = IF front THEN after ELSE after + 1
  /\ UNCHANGED <<dims, coords, files>>
(* A single time step may be stored without time. *)
Without(p, n) == [m \in 1..(Len(p) - 1) |-> IF m < n THEN p[m] ELSE p[m + 1]]
DropTime ==
  /\ HasTime /\ Steps = 1 /\ files = <<>>
  /\ LET n == Ix("t") IN
     /\ dims' = Without(dims, n)
     /\ array' = [p \in {Without(q, n) : q \in DOMAIN array} |-> array[CHOOSE q \in DOMAIN array : Without(q, n) = p]]
  /\ UNCHANGED <<coords, before, after, files>>
(* Written to a file; the time steps of a file split into two files. *)
Save == files = <<>> /\ files' = <<Steps>> /\ UNCHANGED <<dims, array, coords, before, after>>
Split == \E n \in DOMAIN files : \E m \in 1..(files[n] - 1) :
  /\ HasTime
  /\ files' = SubSeq(files, 1, n - 1) \o <<m, files[n] - m>> \o SubSeq(files, n + 1, Len(files))
  /\ UNCHANGED <<dims, array, coords, before, after>>
Next == Transpose \/ Recoord \/ Pad(TRUE) \/ Pad(FALSE) \/ DropTime \/ Save \/ Split
Spec == Init /\ [][Next]_vars

(* No time step is lost or stored twice. *)
Whole == files # <<>> => SumTo(files, Len(files)) = Steps
Same == View = [t \in 1..NT |-> [j \in 1..NY |-> [i \in 1..NX |-> Field(t, j, i)]]]
Emit == EMIT => PrintT(<<"HIST", ToJson([dims |-> dims, coords |-> coords, before |-> before, after |-> after, files |-> files])>>)
=============================================================================
