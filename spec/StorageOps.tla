----------------------------- MODULE StorageOps -----------------------------
(***************************************************************************)
(* What the folders contain after a run. An operation is                    *)
(*   <<version of the data, first step, last step (excluded), folder,       *)
(*     format, offline?, step at which the run is interrupted (NA: none)>>. *)
(* A folder is the set of its files <<folder, step, format, version>>.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Formats == {"csv", "json", "hd5"}
NA == 99
(* The steps whose eddies the run had detected before it stopped. *)
Reached(op, count) == {t \in op[2]..(op[3] - 1) : (op[7] < op[2] \/ t < op[7]) /\ count[op[1]][t + 1] > 0}
Known(op) == op[5] \in Formats
After(files, op, count) ==
  IF ~op[6] \/ ~Known(op) THEN files
  ELSE LET new == Reached(op, count)
       IN {f \in files : ~(f[1] = op[4] /\ f[2] \in new /\ f[3] = op[5])} \cup {<<op[4], t, op[5], op[1]>> : t \in new}
Outcome(op, count) ==
  IF op[6] /\ ~Known(op) /\ Reached(op, count) # {} THEN "format"
  ELSE IF op[7] \in op[2]..(op[3] - 1) THEN "stopped"
  ELSE "done"
=============================================================================
