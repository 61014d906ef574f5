------------------------------ MODULE CoordTrace ------------------------------
(***************************************************************************)
(* Judges the coordinate transformations and the Cartesian PFSS field      *)
(* (C15).                                                                  *)
(***************************************************************************)
EXTENDS Geometry, Pfss, CaseRun
(* rounding of the polar angle grows towards the axis, to the square root of the precision *)
AxisTol(s) == FAdd(FTiny(1, 13), IF FLt(s, FTiny(3, 8)) THEN FTiny(6, 8) ELSE FDiv(FTiny(2, 15), s))
AtOrigin(v) == v[1] = FZero /\ v[2] = FZero /\ v[3] = FZero
AwayClauses(c, k) ==
  LET v == c.xyz[k]
      r == Norm(v)
      d == DirOf(v)
      o == c.rpa[k]
      e == Direction(o[2], o[3])
      tr == FMul(r, FTiny(1, 14))
      wide == FMul(r, AxisTol(d[2]))
      in(x, lo) == FLe(lo, x) /\ FLe(x, FAdd(FPi, FTiny(1, 14)))
  IN (IF FNear(o[1], r, tr) THEN {} ELSE {"radius"})
     \cup (IF in(o[2], FZero) /\ FNear(FMul(r, e[1]), v[3], FMulInt(tr, 4)) /\ FNear(FMul(r, e[2]), FMul(r, d[2]), wide)
           THEN {} ELSE {"polar-angle"})
     \cup (IF in(o[3], FNeg(FAdd(FPi, FTiny(1, 14))))
              /\ (d[2] = FZero \/ (FNear(e[3], d[3], FTiny(1, 14)) /\ FNear(e[4], d[4], FTiny(1, 14)))) THEN {} ELSE {"azimuth"})
     \cup (IF VNear(c.back[k], v, wide) THEN {} ELSE {"round-trip"})
PointClauses(c, k) ==
  LET o == c.rpa[k]
  IN IF AtOrigin(c.xyz[k])        \* radius 0, and by convention polar angle 0
     THEN (IF o[1] = FZero /\ o[2] = FZero /\ FLe(FAbs(o[3]), FAdd(FPi, FTiny(1, 14))) THEN {} ELSE {"origin"})
          \cup (IF AtOrigin(c.back[k]) THEN {} ELSE {"round-trip"})
     ELSE AwayClauses(c, k)
RectClauses(c, k) ==
  LET p == c.rpa[k]
  IN IF VNear(ToRect(p[1], Direction(p[2], p[3])), c.xyz[k], FMul(FAdd(FAbs(p[1]), FTiny(1, 20)), FTiny(1, 13)))
     THEN {} ELSE {"cartesian-of-spherical"}
MatrixClauses(c, k) ==
  LET d == Direction(c.ang[k][1], c.ang[k][2])
      tol == FTiny(1, 13)
  IN (IF MNear(c.s2r[k], Columns(d), tol) THEN {} ELSE {"spherical-to-rectangular"})
     \cup (IF MNear(c.r2s[k], Rows(d), tol) THEN {} ELSE {"rectangular-to-spherical"})
     \cup (IF MNear(Product(c.s2r[k], c.r2s[k]), Identity, tol) THEN {} ELSE {"not-inverse"})
Names == <<"radial", "polar", "azimuthal", "x", "y", "z">>
FieldClauses(c, k) ==
  IF AtOrigin(c.xyz[k]) THEN (IF \A i \in 1..6 : c.obs[k][i] = FZero THEN {} ELSE {"field-at-origin"}) ELSE
  LET v == c.xyz[k]
      d == DirOf(v)
      w == PfssField(c.coefs, d, Norm(v), c.r0, c.rss)
      all == w \o Apply(Columns(d), w)
      tol == FMulInt(PTol(c.coefs, d), 8)
  IN {Names[i] : i \in {j \in 1..6 : ~FNear(all[j], c.obs[k][j], tol)}}
Chk(c) ==
  UNION {CASE c.op = "points" -> PointClauses(c, k)
           [] c.op = "rect" -> RectClauses(c, k)
           [] c.op = "matrix" -> MatrixClauses(c, k)
           [] c.op = "pfss" -> FieldClauses(c, k) : k \in 1..c.n}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
