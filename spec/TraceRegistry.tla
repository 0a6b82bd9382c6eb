---------------------------- MODULE TraceRegistry ----------------------------
(***************************************************************************)
(* Judges records of eddies and histories of the registries.                *)
(* record: sel (properties asked for), eddy (property -> values), unknown   *)
(*   (a property of several values without layout was asked for as well),   *)
(*   cols (name -> values), exc, table (name -> values by row, if made).    *)
(* history: ops, and after each of them the table returned.                 *)
(***************************************************************************)
EXTENDS RecordOps, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
If(b, n) == IF b THEN {n} ELSE {}

Record(c) ==
  LET props == IF c.sel = <<>> THEN Properties ELSE Range(c.sel)
      names == Names(props, c.eddy)
      own == {n \in DOMAIN c.cols : ~(\E p \in props : p \notin DOMAIN c.eddy /\ (n = p \/ n \in Range(ColumnsOf(p))))}
      N == Len(c.eddy.contour)
  IN IF c.unknown THEN If(c.exc # "ValueError", "UnknownAccepted")
     ELSE IF c.exc # "" THEN {"Raised"}
     ELSE If(own # names, "WrongColumns")
          \cup If(own = names /\ \E n \in names : c.cols[n] # Cell(props, c.eddy, n), "WrongValues")
          \cup (IF ~c.tabled THEN {}
                ELSE If(\E n \in names : n \notin DOMAIN c.table, "TableWithoutColumn")
                     \cup If(\E n \in names : n \in DOMAIN c.table /\
                               c.table[n] # [k \in 1..N |-> IF Len(Cell(props, c.eddy, n)) = N /\ n \in {"contour_path_x", "contour_path_y"} THEN Cell(props, c.eddy, n)[k] ELSE Cell(props, c.eddy, n)[1]], "WrongTable")
                     \cup If(c.index # [k \in 1..N |-> k - 1], "WrongIndex"))

(* Which eddies are stored and thrown after each operation. *)
RECURSIVE Since(_, _, _, _)
Since(ops, k, last, what) ==
  IF k > last THEN <<>>
  ELSE LET rest == Since(ops, k + 1, last, what) IN IF ops[k][1] = what THEN <<ops[k]>> \o rest ELSE rest
LastExit(ops, n) == LET E == {k \in 1..n : ops[k][1] = "exit"} IN IF E = {} THEN 0 ELSE CHOOSE k \in E : \A j \in E : j <= k
History(c) ==
  UNION {
    LET from == LastExit(c.ops, n) + 1
        op == c.ops[n][1]
        st == Since(c.ops, from, n, "store")  th == Since(c.ops, from, n, "discard")
        rows == Table([k \in DOMAIN st |-> st[k][2]], c.size)
    IN IF op = "exit" THEN {}
       ELSE IF op = "store" THEN
              If([k \in DOMAIN c.seen[n] |-> <<c.seen[n][k][1], c.seen[n][k][2], c.seen[n][k][3]>>] # rows, "WrongRegistry")
              \cup If(\E k \in DOMAIN c.seen[n] : ~c.seen[n][k][4], "RowChanged")
       ELSE If([k \in DOMAIN c.seen[n] |-> <<c.seen[n][k][1], c.seen[n][k][2], c.seen[n][k][3]>>] # [k \in DOMAIN th |-> <<k - 1, th[k][3], th[k][2]>>], "WrongDiscarded")
            \cup If(\E k \in DOMAIN c.seen[n] : ~c.seen[n][k][4], "DiscardedChanged")
    : n \in DOMAIN c.ops}

Violations(c) == IF c.kind = "record" THEN Record(c) ELSE IF c.exc # "" THEN {"Raised"} ELSE History(c)
VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
