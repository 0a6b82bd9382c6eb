------------------------------ MODULE CoordsOps ------------------------------
(***************************************************************************)
(* How a dataset is read: the role of each dimension and data variable from *)
(* its name, the grid X, Y that results, and the field of one time step on  *)
(* that grid (always with rows along y).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(name, part) == \E i \in 1..(Len(name) - Len(part) + 1) : SubSeq(name, i, i + Len(part) - 1) = part
RoleDim(n) == IF Has(n, "time") \/ n = "t" THEN "time"
              ELSE IF Has(n, "lon") \/ n = "x" THEN "x"
              ELSE IF Has(n, "lat") \/ n = "y" THEN "y" ELSE "none"
RoleVar(n) == LET r == RoleDim(n) IN IF r = "time" THEN "none" ELSE r
Range(s) == {s[i] : i \in DOMAIN s}
DimOf(dims, role) == IF \E d \in Range(dims) : RoleDim(d) = role THEN CHOOSE d \in Range(dims) : RoleDim(d) = role ELSE ""

(* A layout: dims (names, in the order of storage), vars: sequence of       *)
(* [name, kind], kind one of "0d", "1d", "yx", "xy", "3d"; extra: size of   *)
(* the dimension without role (0: there is none).                           *)
VarOf(vars, role) == IF \E v \in Range(vars) : RoleVar(v.name) = role THEN {v \in Range(vars) : RoleVar(v.name) = role} ELSE {}
Two(kind) == kind \in {"yx", "xy"}

(* Where the grid comes from: "dims", "vectors", "matrices" or "none" (the  *)
(* dataset is rejected).  Coordinates in variables over dimensions without  *)
(* a role ("open") may be rejected or not.                                  *)
Source(L) ==
  LET xs == VarOf(L.vars, "x")  ys == VarOf(L.vars, "y")
      known == DimOf(L.dims, "x") # "" /\ DimOf(L.dims, "y") # ""
  IN IF L.extra > 1 THEN "none"
     ELSE IF ~known THEN (IF xs # {} /\ ys # {} THEN "open" ELSE "none")
     ELSE IF xs # {} /\ ys # {}
     THEN LET kx == (CHOOSE v \in xs : TRUE).kind  ky == (CHOOSE v \in ys : TRUE).kind IN
          IF kx = "1d" /\ ky = "1d" THEN "vectors"
          ELSE IF Two(kx) /\ Two(ky) THEN "matrices" ELSE "none"
     ELSE "dims"

(* Values, as the replay stores them: row j, column i. *)
NX == 3
NY == 2
XDim == <<3, 5, 8>>          YDim == <<-4, 2>>
XVec == <<10, 20, 40>>       YVec == <<30, 35>>
XMat(j, i) == 100 + 10 * i + j
YMat(j, i) == 50 + 10 * j + i
Val(t, j, i) == 1000 * t + 10 * j + i
Matrix(F(_, _)) == [j \in 1..NY |-> [i \in 1..NX |-> F(j, i)]]
GridX(L) == LET s == Source(L) F(j, i) == IF s = "dims" THEN XDim[i] ELSE IF s = "vectors" THEN XVec[i] ELSE XMat(j, i) IN Matrix(F)
GridY(L) == LET s == Source(L) F(j, i) == IF s = "dims" THEN YDim[j] ELSE IF s = "vectors" THEN YVec[j] ELSE YMat(j, i) IN Matrix(F)
Field(L, t) == LET tt == IF DimOf(L.dims, "time") = "" THEN 0 ELSE t  F(j, i) == Val(tt, j, i) IN Matrix(F)
=============================================================================
