------------------------------ MODULE TraceTracks ------------------------------
(***************************************************************************)
(* Judges recorded executions of the merge of levels, of tracking and of    *)
(* the offline storage.                                                     *)
(*                                                                         *)
(* Detections are numbered from 1; steps gives the ones of each time step   *)
(* (levels: of each level); obs are the observed groups of rows             *)
(* <<identifier + 1, time, detection (0: unknown), unchanged?>>.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
PROP == IOEnv.PROP
T == INSTANCE TracksOps
C == INSTANCE CatalogueOps

NA == 99999
Margin == 2
Elems(s) == {s[k] : k \in DOMAIN s}
If(b, n) == IF b THEN {n} ELSE {}

-----------------------------------------------------------------------------
(* Tracks *)
End(c) == IF c.tf = NA THEN c.times ELSE c.tf
Window(c) == {t \in 0..(c.times - 1) : c.t0 <= t /\ t < End(c)}
Detections(c, t) == Elems(c.steps[t + 1])
Expected(c) == UNION {Detections(c, t) : t \in Window(c)}
TimeOf(c, n) == CHOOSE t \in 0..(c.times - 1) : n \in Detections(c, t)
RowsOf(c, n) == {k \in DOMAIN c.obs : c.obs[k][3] = n}

Partition(c) ==
  If(\E n \in Expected(c) : RowsOf(c, n) = {}, "DetectionLost")
  \cup If(\E n \in Expected(c) : Cardinality(RowsOf(c, n)) > 1, "DetectionTwice")
  \cup If(\E k \in DOMAIN c.obs : c.obs[k][3] \notin Expected(c), "UnknownRows")
  \cup If(\E k \in DOMAIN c.obs : c.obs[k][3] # 0 /\ ~c.obs[k][4], "DetectionChanged")
  \cup If(\E k, m \in DOMAIN c.obs : k < m /\ c.obs[k][1] = c.obs[m][1] /\ c.obs[k][2] = c.obs[m][2], "TwoDetectionsAtOneTime")
WindowOk(c) ==
  If(\E n \in Expected(c) : RowsOf(c, n) = {}, "TimeStepMissing")
  \cup If(\E k \in DOMAIN c.obs : c.obs[k][2] \notin Window(c), "OutsideOfTheWindow")
  \cup If(\E k \in DOMAIN c.obs : c.obs[k][3] # 0 /\ c.obs[k][2] # TimeOf(c, c.obs[k][3]), "WrongTime")

(* Tracks of the detections of time t, by observed identifier. *)
AsOf(c, t) == [n \in {m \in Detections(c, t) : RowsOf(c, m) # {}} |-> c.obs[CHOOSE k \in RowsOf(c, n) : TRUE][1]]

(* Identifiers: 1..n by first appearance, checked step by step. *)
RECURSIVE Numbers(_, _, _)
Numbers(c, t, known) ==
  IF t \notin Window(c) THEN {}
  ELSE LET new == {AsOf(c, t)[n] : n \in DOMAIN AsOf(c, t)} \ (1..known) IN
       If(new # (known + 1)..(known + Cardinality(new)), "IdentifiersNotInOrder")
       \cup Numbers(c, t + 1, known + Cardinality(new))

(* Step by step validation of the continuation of tracks. Identifiers are   *)
(* renumbered by first appearance (how they are numbered is judged above).  *)
RECURSIVE Steps(_, _, _, _)
Steps(c, t, last, names) ==
  IF t \notin Window(c) THEN {}
  ELSE
  LET raw == AsOf(c, t)
      fresh == {raw[n] : n \in DOMAIN raw} \ Elems(names)
      names2 == names \o SetToSeq(fresh)
      as == [n \in DOMAIN raw |-> CHOOSE k \in DOMAIN names2 : names2[k] = raw[n]]
      DD(n, p) == c.dist[n][p]
      RR(n) == c.rad[n]
      N == DOMAIN as
      Gap(i) == t - 1 - last[i].t
      alive == T!Alive(last, t, c.ntimes)
      wrong == {n \in N : T!Continues(last, as, n) /\ T!WronglyContinued(DD, RR, Margin, last, t, c.ntimes, as, n)}
      lost == {<<n, i>> \in N \X alive : as[n] # i /\ T!MustContinue(DD, RR, Margin, last, t, c.ntimes, as, n, i)}
      v == IF PROP = "C10"
           THEN If(wrong # {}, "WrongTrackContinued") \cup If(lost # {}, "TrackNotContinued")
                \cup If(T!RevivesEnded(last, t, c.ntimes, as), "EndedTrackContinued")
           ELSE IF PROP = "C12"
           \* the identifier of a track given to an eddy that does not continue it
           THEN If(wrong # {} \/ T!RevivesEnded(last, t, c.ntimes, as), "IdentifierReused")
           ELSE If(T!RevivesEnded(last, t, c.ntimes, as), "EndedTrackContinued")
                \cup If(\E x \in lost : Gap(x[2]) > 0, "TrackEndedTooEarly")
                \cup If(\E n \in wrong : Gap(as[n]) > 0, "WrongTrackContinued")
  IN v \cup Steps(c, t + 1, T!Update(last, t, as), names2)

Prefix(c) ==
  IF c.tf2 = NA THEN {}
  ELSE If({<<c.obs[k][1], c.obs[k][2], c.obs[k][3]>> : k \in {m \in DOMAIN c.obs : c.obs[m][2] < c.tf2}}
            # {<<c.obs2[k][1], c.obs2[k][2], c.obs2[k][3]>> : k \in DOMAIN c.obs2}, "LaterDataChangesEarlierTracks")
       \cup If(\E k \in DOMAIN c.obs2 : ~c.obs2[k][4], "DetectionChanged")

JudgeTracks(c) ==
  IF c.exc # "" THEN {"Raised"}
  ELSE CASE PROP = "C09" -> Partition(c)
         [] PROP = "C10" -> Steps(c, c.t0, <<>>, <<>>)
         [] PROP = "C11" -> Steps(c, c.t0, <<>>, <<>>)
         [] PROP = "C12" -> Numbers(c, c.t0, 0) \cup Prefix(c) \cup Steps(c, c.t0, <<>>, <<>>)
         [] PROP = "C13" -> WindowOk(c)
         [] OTHER -> {}

-----------------------------------------------------------------------------
(* Catalogue of a snapshot *)
Seen(obs) == [k \in DOMAIN obs |-> obs[k][3]]
JudgeCatalogue(c) ==
  IF c.exc # "" THEN {"Raised"}
  ELSE
  LET DD(n, p) == c.dist[n][p]
      RR(n) == c.rad[n]
      all == C!MergeAll(DD, RR, Margin, c.e, c.g, {<<>>}, c.levels)
      ids == {c.obs[k][1] : k \in DOMAIN c.obs}
  IN CASE PROP = "C07" ->
            If(Seen(c.obs) \notin all,
               IF \E k \in DOMAIN c.obs : c.obs[k][3] = 0 THEN "UnknownEntry"
               ELSE IF \A s \in all : Len(s) # Len(c.obs) THEN "NumberOfEntries"
               ELSE IF \A s \in all : Elems(s) # Elems(Seen(c.obs)) THEN "WrongEntries" ELSE "WrongIdentifiers")
            \cup If(\E k \in DOMAIN c.obs : c.obs[k][3] # 0 /\ ~c.obs[k][4], "EntryChanged")
            \cup If(ids # 1..Len(c.obs), "Identifiers")
       [] PROP = "C08" ->
            If(c.zeros /\ c.obs # c.obs0, "ZeroLevelMatters")
            \cup If(~c.asked, "LevelsAsked")
            \cup If(\E k \in DOMAIN c.lev : c.lev[k] # 1, "WrongLevel")
            \cup If(\E k \in DOMAIN c.obs : c.obs[k][3] = 0 \/ ~c.obs[k][4], "NotAsDetectedAtItsLevel")
            \* detections away from every other one are there
            \cup LET n == Len(c.rad)
                     lone == {m \in 1..n : \A q \in 1..n : q # m => c.dist[m][q] > c.rad[m] + Margin /\ c.dist[q][m] > c.rad[q] + Margin}
                 IN If(\E m \in lone : m \notin Elems(Seen(c.obs)), "IsolatedEddyLost")
       [] OTHER -> {}

-----------------------------------------------------------------------------
(* Offline storage: files are <<time step (-1: unknown name), groups>>.     *)
JudgeOffline(c) ==
  IF c.exc # "" THEN {"Raised"}
  ELSE
  LET times == {t \in Window(c) : Detections(c, t) # {}}
      F == DOMAIN c.files
  IN If(\E k \in F : c.files[k][1] \notin times, "UnexpectedFile")
     \cup If(\E t \in times : \A k \in F : c.files[k][1] # t, "MissingFile")
     \cup If(c.stray # 0, "StrayFile")
     \cup UNION {LET t == c.files[k][1]  rows == c.files[k][2] IN
                 IF t \notin times THEN {}
                 ELSE If(Elems([m \in DOMAIN rows |-> rows[m][3]]) # Detections(c, t) \/ Len(rows) # Cardinality(Detections(c, t)), "FileContents")
                      \cup If(\E m \in DOMAIN rows : ~rows[m][4], "DetectionChanged")
                      \cup If(\E m \in DOMAIN rows : rows[m][2] # t, "WrongTime")
                      \cup If({rows[m][1] : m \in DOMAIN rows} # 0..(Len(rows) - 1), "Identifiers") : k \in F}

-----------------------------------------------------------------------------
(* Histories of runs into the same folders (specification Storage). seen[n] *)
(* is what follows operation n: how it ended, the files <<folder, step,     *)
(* format, groups>> and the files anywhere else; tags are the detections of *)
(* each version and step.   *)
S == INSTANCE StorageOps
RECURSIVE FilesAfter(_, _)
FilesAfter(c, n) == IF n = 0 THEN {} ELSE S!After(FilesAfter(c, n - 1), c.ops[n], c.count)
JudgeStorage(c) ==
  UNION {LET o == c.seen[n]  op == c.ops[n]
             want == FilesAfter(c, n)
             keys == {SubSeq(o.files[k], 1, 3) : k \in DOMAIN o.files}
         IN If(o.outcome # S!Outcome(op, c.count), IF S!Outcome(op, c.count) = "format" THEN "UnknownFormatAccepted" ELSE "Outcome")
            \cup If(\E f \in want : SubSeq(f, 1, 3) \notin keys, "MissingFile")
            \cup If(\E q \in keys : \A f \in want : SubSeq(f, 1, 3) # q, "UnexpectedFile")
            \cup If(o.stray # 0, "StrayFile")
            \cup UNION {UNION {LET rows == o.files[k][4]  tags == c.tags[f[4]][f[2] + 1] IN
                                IF SubSeq(o.files[k], 1, 3) # SubSeq(f, 1, 3) THEN {}
                                ELSE If(Elems([m \in DOMAIN rows |-> rows[m][3]]) # Elems(tags) \/ Len(rows) # Len(tags), "FileContents")
                                     \cup If(\E m \in DOMAIN rows : ~rows[m][4], "DetectionChanged")
                                     \cup If(\E m \in DOMAIN rows : rows[m][2] # f[2], "WrongTime")
                                     \cup If({rows[m][1] : m \in DOMAIN rows} # 0..(Len(rows) - 1), "Identifiers")
                                : k \in DOMAIN o.files} : f \in want}
         : n \in DOMAIN c.ops}

Violations(c) == CASE c.kind = "tracks" -> JudgeTracks(c)
                   [] c.kind = "catalogue" -> JudgeCatalogue(c)
                   [] c.kind = "storage" -> JudgeStorage(c)
                   [] OTHER -> JudgeOffline(c)

VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
