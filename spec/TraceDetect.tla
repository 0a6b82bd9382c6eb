----------------------------- MODULE TraceDetect -----------------------------
(***************************************************************************)
(* Judges complete detections at one level, recorded from the               *)
(* implementation.  A case has the field f, the closed contours found       *)
(* (cands, with the reference measurement and criterion of every test), the *)
(* identified eddies (ident) and the discarded ones (disc).                 *)
(*                                                                         *)
(* The closed contours, their interior, the extreme value, its sign and the *)
(* outcome of every test are defined here, from MarchingSquares and Cascade.*)
(***************************************************************************)
EXTENDS MarchingSquares, SequencesExt, FiniteSetsExt, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Lanes == atoi(IOEnv.LANES)
PROP == IOEnv.PROP

Casc == INSTANCE Cascade WITH MAXCAND <- 0, VERDICTS <- {}, todo <- <<>>, gate <- 1, skipg <- TRUE,
                              identified <- <<>>, discarded <- <<>>, hist <- <<>>

Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Close(a, b, abs, permille) == Abs(a - b) <= abs + (Abs(b) * permille) \div 1000

MatchClosed(o, pts) == Len(o) = Len(pts) + 1 /\ o[1] = o[Len(o)] /\ SameCycle(SubSeq(o, 1, Len(o) - 1), pts)
Finite(pts) == \A k \in DOMAIN pts : NA \notin {pts[k][1], pts[k][2]}

-----------------------------------------------------------------------------
(* Interior of a closed contour (a sequence of crossed edges). *)
Inside(p, q) == Cardinality({k \in DOMAIN p : p[k][3] = 0 /\ p[k][2] = q[2] /\ p[k][1] < q[1]}) % 2 = 1

BoxOf(f, p) == LET is == {p[k][1] : k \in DOMAIN p}  js == {p[k][2] : k \in DOMAIN p}
               IN {<<i, j>> : i \in Max({1, Min(is) - 1})..Min({f.w, Max(is) + 2}), j \in Max({1, Min(js) - 1})..Min({f.h, Max(js) + 2})}

(* Grid points nearest to the vertices: both ends when the crossing is half way. *)
Near(f, e) == LET a == EndA(e)  b == EndB(e)
                  va == Abs(f.z[a[2]][a[1]] - f.l)  vb == Abs(f.z[b[2]][b[1]] - f.l)
              IN IF va < vb THEN {a} ELSE IF vb < va THEN {b} ELSE {a, b}
RingMay(f, p) == UNION {Near(f, p[k]) : k \in DOMAIN p}
RingMust(f, p) == UNION {IF Cardinality(Near(f, p[k])) = 1 THEN Near(f, p[k]) ELSE {} : k \in DOMAIN p}

(* Points that a path of side neighbours joins to the outside without crossing the ring. *)
Side(q) == {<<q[1] - 1, q[2]>>, <<q[1] + 1, q[2]>>, <<q[1], q[2] - 1>>, <<q[1], q[2] + 1>>}
RECURSIVE Flood(_, _, _)
Flood(free, front, seen) ==
  IF front = {} THEN seen
  ELSE LET n == (UNION {Side(q) : q \in front} \cap free) \ seen IN Flood(free, n, seen \cup n)
Pockets(box, ring) ==
  LET i0 == Min({q[1] : q \in box})  i1 == Max({q[1] : q \in box})
      j0 == Min({q[2] : q \in box})  j1 == Max({q[2] : q \in box})
      wide == {<<i, j>> : i \in (i0 - 1)..(i1 + 1), j \in (j0 - 1)..(j1 + 1)}
      rim == {q \in wide : q[1] \in {i0 - 1, i1 + 1} \/ q[2] \in {j0 - 1, j1 + 1}}
  IN box \ (Flood(wide \ ring, rim, rim) \cup ring)

(* The same for a curve that closes on a boundary point, where rays to the  *)
(* left say nothing: no path crosses the curve nor its points.              *)
EdgeOf(a, b) == IF a[2] = b[2] THEN <<Min({a[1], b[1]}), a[2], 0>> ELSE <<a[1], Min({a[2], b[2]}), 1>>
RECURSIVE FloodAcross(_, _, _, _)
FloodAcross(free, cut, front, seen) ==
  IF front = {} THEN seen
  ELSE LET n == {q \in (UNION {Side(s) : s \in front} \cap free) \ seen : \E s \in Side(q) \cap front : EdgeOf(s, q) \notin cut}
       IN FloodAcross(free, cut, n, seen \cup n)
Enclosed(box, p, ring) ==
  LET i0 == Min({q[1] : q \in box})  i1 == Max({q[1] : q \in box})
      j0 == Min({q[2] : q \in box})  j1 == Max({q[2] : q \in box})
      wide == {<<i, j>> : i \in (i0 - 1)..(i1 + 1), j \in (j0 - 1)..(j1 + 1)}
      rim == {q \in wide : q[1] \in {i0 - 1, i1 + 1} \/ q[2] \in {j0 - 1, j1 + 1}}
  IN box \ (FloodAcross(wide \ ring, {p[k] : k \in DOMAIN p}, rim, rim) \cup ring)

(* The interior: the points nearest to the vertices and everything they     *)
(* enclose; must is certain and may depends on ties.                        *)
Interior(f, p, touches) ==
  LET box == BoxOf(f, p)
      in == IF touches THEN Enclosed(box, p, RingMay(f, p)) ELSE {q \in box : Inside(p, q)}
      must == in \cup RingMust(f, p)
      ring == RingMay(f, p)
      may == in \cup ring \cup Pockets(box, ring)
      pockets == Pockets(box, RingMust(f, p))
      good(S) == {q \in S : f.z[q[2]][q[1]] # NA}
  IN [must |-> good(must \cup pockets), may |-> good(may)]
Val(f, q) == f.z[q[2]][q[1]]
Sum(f, S) == FoldSet(LAMBDA q, acc : acc + Val(f, q), 0, S)
Signs(f, m) ==
  LET lo == Sum(f, m.must) + Sum(f, {q \in m.may \ m.must : Val(f, q) < 0})
      hi == Sum(f, m.must) + Sum(f, {q \in m.may \ m.must : Val(f, q) > 0})
  IN IF m.may = m.must THEN {Sgn(lo)} ELSE {s \in {-1, 0, 1} : (s = -1 /\ lo < 0) \/ (s = 1 /\ hi > 0) \/ (s = 0 /\ lo <= 0 /\ hi >= 0)}

-----------------------------------------------------------------------------
(* Verdicts on the tests of a candidate, from measurements in integer units. *)
Verdict(g, k) == LET q == k.gates[g] IN IF Abs(q.m - q.t) <= q.s THEN "any" ELSE IF q.m > q.t THEN "fail" ELSE "pass"
Verdicts(c, k, island) ==
  [g \in {"area", "ellipse_fit_failed", "ellipse_area", "eccentricity", "similarity"} |-> Verdict(g, k)]
  @@ [g \in {"eddy_is_island"} |-> island] @@ [g \in {"gaussian_fit_failed", "gaussian_check"} |-> "any"]

Of(recs, n) == {k \in DOMAIN recs : recs[k].cand = n}

Violations(c) ==
  IF c.exc # "" THEN {"Raised"}
  ELSE
  LET f == c.f
      cs == ContoursOf(f)
      (* A contour whose two ends fall on the same grid point of the boundary *)
      (* (a tie with the level) is a closed curve as well.                    *)
      touching == {p \in cs.open : Position(f, p[1]) = Position(f, p[Len(p)])}
      closed == cs.closed \cup touching
      pts == [p \in closed |-> Points(f, p)]
      curves == {p \in closed : Cardinality({pts[p][n] : n \in DOMAIN pts[p]}) > 1}
      finite == {p \in curves : Finite(pts[p])}
      missing == {p \in closed : ~Finite(pts[p])}
      Matches(o) == {p \in finite : IF p \in touching THEN o = pts[p] \/ o = Reverse(pts[p]) ELSE MatchClosed(o, pts[p])}
      I == DOMAIN c.ident   D == DOMAIN c.disc   K == DOMAIN c.cands
      When(p, s) == IF PROP = p THEN s ELSE {}
      If(b, n) == IF b THEN {n} ELSE {}
  IN
  When("C02",
    UNION {LET r == c.ident[k]  m == Matches(r.path) IN
           If(m = {}, "NotAClosedContour") \cup If(r.level # 1, "WrongLevel")
           \cup If(Cardinality({a \in I : Matches(c.ident[a].path) = m}) > Cardinality(m) /\ m # {}, "SameContourTwice") : k \in I})
  \cup When("C03",
    LET Island(p) == LET s == Signs(f, Interior(f, p, p \in touching)) IN IF s = {0} THEN "fail" ELSE IF 0 \in s THEN "any" ELSE "pass"
        Outc(n) == LET k == c.cands[n]  m == Matches(k.path)
                       is == {Island(p) : p \in m}
                   IN UNION {Casc!Outcomes(Verdicts(c, k, i), c.skipg) : i \in is}
    IN If(Len(c.cands) # Cardinality(finite) \/ \E n \in K : Matches(c.cands[n].path) = {}, "ClosedContoursDiffer")
       \cup UNION {LET n1 == Cardinality(Of(c.ident, n))  n2 == Cardinality(Of(c.disc, n)) IN
                   If(n1 + n2 > 1, "ReportedTwice") \cup If(n1 + n2 = 0 /\ ~c.cands[n].near_first, "NotReported") : n \in K}
       \cup UNION {If(c.disc[k].cand # 0 /\ Matches(c.cands[c.disc[k].cand].path) # {} /\ c.disc[k].reason \notin Outc(c.disc[k].cand), "WrongReason")
                   \cup If(c.disc[k].cand = 0 /\ c.disc[k].finite, "DiscardedWithoutContour")
                   \cup If(c.disc[k].id # k - 1, "DiscardedIds") \cup If(c.disc[k].level # 1, "DiscardedLevel") : k \in D}
       \cup If(Cardinality({k \in D : ~c.disc[k].finite}) > Cardinality(missing), "DiscardedWithoutContour")
       \cup UNION {If(c.ident[k].cand = 0, "IdentifiedWithoutContour")
                   \cup If(c.ident[k].cand # 0 /\ Matches(c.cands[c.ident[k].cand].path) # {} /\ "identified" \notin Outc(c.ident[k].cand), "ShouldBeDiscarded")
                   \cup If(c.ident[k].ident # k - 1, "IdentifiedIds") : k \in I})
  \cup When("C04",
    UNION {LET r == c.ident[k] IN
           If(r.cand # 0 /\ Verdict("area", c.cands[r.cand]) = "fail", "TooLarge")
           \cup If(r.cand # 0 /\ Verdict("ellipse_area", c.cands[r.cand]) = "fail", "EllipseArea")
           \cup If(r.cand # 0 /\ (Verdict("eccentricity", c.cands[r.cand]) = "fail"
                                  \/ Verdict("similarity", c.cands[r.cand]) = "fail"), "ReferenceMeasure")
           \cup If(r.ecmp > 0, "Eccentricity") \cup If(r.scmp > 0, "Similarity") \cup If(~c.skipg /\ r.gcmp < 0, "Gaussian") : k \in I}
    \cup UNION {LET d == c.disc[k]  v == IF d.cand = 0 THEN "any" ELSE IF d.reason \in {"area", "ellipse_area"} THEN Verdict(d.reason, c.cands[d.cand]) ELSE "any" IN
           If(d.finite /\ d.reason = "eccentricity" /\ d.ecmp <= 0, "RejectedEccentricity")
           \cup If(d.finite /\ d.reason = "similarity" /\ d.scmp <= 0, "RejectedSimilarity")
           \cup If(d.finite /\ d.reason = "gaussian_check" /\ (c.skipg \/ d.gcmp >= 0), "RejectedGaussian")
           \cup If(v = "pass", "RejectedSize") : k \in D})
  \cup When("C06",
    UNION {LET r == c.ident[k]  q == <<r.i, r.j>> IN
           If(r.i = 0, "NotOnTheGrid")
           \cup (IF r.i = 0 THEN {} ELSE
                 If(Val(f, q) # r.ext, "NotTheValueThere")
                 \cup (IF Matches(r.path) = {} THEN {} ELSE
                      LET ms == {Interior(f, p, p \in touching) : p \in Matches(r.path)} IN
                      If(\A m \in ms : r.sign \notin Signs(f, m), "WrongSign")
                      \cup If(\A m \in ms : q \notin m.may, "OutsideOfTheContour")
                      \cup If(\A m \in ms : \E u \in m.must : r.sign * Val(f, u) > r.sign * r.ext, "NotTheExtreme"))) : k \in I})
  \cup When("C18",
    UNION {If(~c.ident[k].finite \/ ~Finite(c.ident[k].path), "NotFinite") : k \in I})
  \cup When("C26",
    UNION {LET r == c.ident[k]  g == r.fitg  lo == Min({3 * g.eth, 17 * g.eth})  hi == Max({3 * g.eth, 17 * g.eth}) IN
           If(\E n \in {1, 2} : Abs(g.c[n]) > 1000010, "Centre")
           \cup If(\E n \in {1, 2} : g.s[n] < 299990 \/ g.s[n] > 1700010, "Widths")
           \cup If(10 * g.th < lo - 1100 \/ 10 * g.th > hi + 1100, "Orientation")
           \cup If(r.ref_gauss # NA /\ Abs(r.gauss - r.ref_gauss) > 30, "Score")
           \cup (IF r.truth = <<>> THEN {} ELSE
                If(\E n \in {1, 2} : Abs(r.truth[n]) > 300000, "TrueCentre")
                \cup If(\E n \in {3, 4} : Abs(r.truth[n] - 1000000) > 150000, "TrueWidths")
                \cup If(Abs(r.truth[5]) > 250000, "TrueOrientation")
                \cup If(r.truth[6] # 0, "TrueAmplitude") \cup If(r.gauss < 8000, "TrueScore")) : k \in {k \in I : ~c.skipg}}
    \cup If(c.isolated /\ ~(\E k \in I : c.ident[k].truth # <<>>), "Missed"))
  \cup When("C23",
    UNION {LET r == c.ident[k] IN
           If(r.ref_area # NA /\ ~Close(r.area, r.ref_area, r.area_s, 0), "Area")
           \cup If(~Close(r.radius, r.radius_area, 1, 0), "Radius")
           \cup If(r.cand # 0 /\ (~Close(r.centre[1], c.cands[r.cand].centre[1], 1, 0) \/ ~Close(r.centre[2], c.cands[r.cand].centre[2], 1, 0)), "Centre")
           \cup If(~Close(r.ecc, r.ecc_ab, 2, 0), "Eccentricity") \cup If(r.axes # 1, "Axes")
           \cup If(r.ref_ab[1] # NA /\ (~Close(r.ab[1], r.ref_ab[1], 3, 1) \/ ~Close(r.ab[2], r.ref_ab[2], 3, 1)), "AxesOfPath")
           \cup If(r.sim \notin 0..10000 \/ r.gauss \notin 0..10000, "ScoreRange")
           \cup If(c.skipg /\ r.gauss # 0, "GaussianScoreWithoutFit")
           \cup If(r.ref_sim # NA /\ Abs(r.sim - r.ref_sim) > 2, "EllipseScore")
           \cup If(r.ref_gauss # NA /\ Abs(r.gauss - r.ref_gauss) > 30, "GaussianScore")
           \cup If(~r.const \/ ~r.index_ok, "Record") : k \in I})

VARIABLE k
TInit == k \in 1..Lanes
TNext == /\ k <= Len(Cases)
         /\ LET v == Violations(Cases[k]) IN IF v = {} THEN TRUE ELSE PrintT(<<"REJECT", k, v>>)
         /\ k' = k + Lanes
TSpec == TInit /\ [][TNext]_k
Judged == PrintT(<<"JUDGED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
