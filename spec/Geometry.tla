------------------------------- MODULE Geometry -------------------------------
(***************************************************************************)
(* Points, directions and patches of the unit sphere.  A direction is      *)
(* <<cos theta, sin theta, cos phi, sin phi>>; a vector <<x, y, z>>.       *)
(***************************************************************************)
EXTENDS Harm

Norm(v) == IF v[2] = FZero /\ v[3] = FZero THEN FAbs(v[1])
           ELSE IF v[1] = FZero /\ v[3] = FZero THEN FAbs(v[2])
           ELSE IF v[1] = FZero /\ v[2] = FZero THEN FAbs(v[3])
           ELSE FSqrt(FAdd(FSq(v[1]), FAdd(FSq(v[2]), FSq(v[3]))))
(* distance from the axis times 2^60, so that squares of small numbers are not lost *)
Amp(x) == BShl(x, 4)
FromAxis60(v) == FSqrt(FAdd(FSq(Amp(v[1])), FSq(Amp(v[2]))))
(* the direction of a vector other than zero *)
DirOf(v) ==
  LET r == Norm(v)
      h == FromAxis60(v)
  IN <<FDiv(v[3], r), FDiv(BShr(h, 4), r), IF h = FZero THEN FOne ELSE FDiv(Amp(v[1]), h), IF h = FZero THEN FZero ELSE FDiv(Amp(v[2]), h)>>
(* radius and direction to x, y, z *)
ToRect(r, d) == <<FMul(r, FMul(d[2], d[3])), FMul(r, FMul(d[2], d[4])), FMul(r, d[1])>>
UnitOf(d) == <<FMul(d[2], d[3]), FMul(d[2], d[4]), d[1]>>
(* unit vectors of growing radius, polar angle, azimuth *)
ERad(d) == UnitOf(d)
EPol(d) == <<FMul(d[1], d[3]), FMul(d[1], d[4]), FNeg(d[2])>>
EAzi(d) == <<FNeg(d[4]), d[3], FZero>>
Rows(d) == <<ERad(d), EPol(d), EAzi(d)>>                  \* x,y,z components to spherical ones
Columns(d) == [i \in 1..3 |-> [j \in 1..3 |-> Rows(d)[j][i]]]     \* and back
VDot(v, w) == FAdd(FMul(v[1], w[1]), FAdd(FMul(v[2], w[2]), FMul(v[3], w[3])))
VNear(v, w, tol) == \A i \in 1..3 : FNear(v[i], w[i], tol)
Apply(m, v) == [i \in 1..3 |-> VDot(m[i], v)]
Product(m, n) == [i \in 1..3 |-> [j \in 1..3 |-> FAdd(FMul(m[i][1], n[1][j]), FAdd(FMul(m[i][2], n[2][j]), FMul(m[i][3], n[3][j])))]]
Det(m) == LET c(i, j, k) == FMul(m[1][i], FSub(FMul(m[2][j], m[3][k]), FMul(m[2][k], m[3][j])))
          IN FAdd(c(1, 2, 3), FAdd(c(2, 3, 1), c(3, 1, 2)))
Identity == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN FOne ELSE FZero]]
MNear(m, n, tol) == \A i \in 1..3 : VNear(m[i], n[i], tol)

(* the patch between two polar and two azimuthal angles *)
Mid(x, y) == FDivInt(FAdd(x, y), 2)
PatchArea(t0, t1, p0, p1) == FMul(FSub(FCosSin(t0)[1], FCosSin(t1)[1]), FSub(p1, p0))
(* how much of a facet with unit normal n is seen from direction v: the cosine, or nothing *)
Seen(n, v) == FMax(FZero, FDiv(VDot(n, v), Norm(v)))
=============================================================================
