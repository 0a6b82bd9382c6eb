------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Runs that store the eddies of each time step in a file (offline mode),   *)
(* step by step: several runs, of other data, windows and formats, into the *)
(* same folders, some of them interrupted.                                  *)
(***************************************************************************)
EXTENDS StorageOps, Json, TLC
CONSTANTS STEPS, VERSIONS, FOLDERS, FORMATS, MOST, MAXOPS, EMIT
VARIABLES count, files, before, run, at, outcome, hist
vars == <<count, files, before, run, at, outcome, hist>>
None == <<>>
Times == 0..(STEPS - 1)
Init == /\ count \in [VERSIONS -> [1..STEPS -> 0..MOST]]
        /\ files = {} /\ before = {} /\ run = None /\ at = 0 /\ outcome = "" /\ hist = <<>>
Begin(v, t0, tf, d, f, off, stop) ==
  /\ run = None /\ Len(hist) < MAXOPS
  /\ run' = <<v, t0, tf, d, f, off, stop>>
  /\ at' = t0 /\ before' = files /\ outcome' = ""
  /\ UNCHANGED <<count, files, hist>>
End(o) == outcome' = o /\ run' = None /\ hist' = Append(hist, run)
Step ==
  /\ run # None /\ at < run[3]
  /\ UNCHANGED <<count, before>>
  /\ IF at = run[7] THEN End("stopped") /\ UNCHANGED <<files, at>>            \* interrupted while detecting
     ELSE IF count[run[1]][at + 1] = 0 \/ ~run[6]
          THEN at' = at + 1 /\ UNCHANGED <<files, run, outcome, hist>>           \* nothing to store
          ELSE IF run[5] \notin Formats THEN End("format") /\ UNCHANGED <<files, at>>
          ELSE /\ files' = {f \in files : SubSeq(f, 1, 3) # <<run[4], at, run[5]>>} \cup {<<run[4], at, run[5], run[1]>>}
               /\ at' = at + 1 /\ UNCHANGED <<run, outcome, hist>>
Finish == run # None /\ at >= run[3] /\ End("done") /\ UNCHANGED <<count, files, before, at>>
Next == \/ \E v \in VERSIONS, t0 \in Times, d \in FOLDERS, f \in FORMATS, off \in BOOLEAN, stop \in Times \cup {NA} :
             \E tf \in t0..STEPS : Begin(v, t0, tf, d, f, off, stop)
        \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Idle == run = None /\ hist # <<>>
Last == hist[Len(hist)]
(* The small steps have the declared effect of the run. *)
Effect == Idle => files = After(before, Last, count) /\ outcome = Outcome(Last, count)
(* One file per step with eddies, of the run that ended well, whatever ran before. *)
Complete == (Idle /\ outcome = "done" /\ Last[6]) =>
  \A t \in Last[2]..(Last[3] - 1) : (count[Last[1]][t + 1] > 0) => <<Last[4], t, Last[5], Last[1]>> \in files
(* Nothing else is created, changed or removed, even by a run that is interrupted. *)
Untouched == run # None =>
  /\ \A f \in before \ files : <<f[1], f[3]>> = <<run[4], run[5]>> /\ f[2] \in run[2]..(run[3] - 1)
  /\ \A f \in files \ before : f[2] < at /\ f[4] = run[1]
OneVersion == \A f, g \in files : SubSeq(f, 1, 3) = SubSeq(g, 1, 3) => f = g
OnlineWritesNothing == (Idle /\ ~Last[6]) => files = before
Emit == (EMIT /\ Idle /\ Len(hist) = MAXOPS) => PrintT(<<"HIST", ToJson([count |-> count, ops |-> hist])>>)
=============================================================================
