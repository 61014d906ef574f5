------------------------------- MODULE GridTrace -------------------------------
(***************************************************************************)
(* Judges surface grids (C17).  how: "explicit" with ts, ps; "numbers" with*)
(* nt, np; "default".  pick: facets <<i, j>> with the observed values of   *)
(* each in obs; total: every observed area.                                *)
(***************************************************************************)
EXTENDS Grid, CaseRun
Chosen(c) == CASE c.how = "explicit" -> [ts |-> c.ts, ps |-> c.ps]
               [] c.how = "numbers" -> ByNumber(c.nt, c.np)
               [] c.how = "default" -> DefaultGrid
Tol == FTiny(1, 12)
FacetClauses(g, c, k) ==
  LET i == c.pick[k][1]
      j == c.pick[k][2]
      o == c.obs[k]
      a == CentreAngles(g, i, j)
      n == Normal(g, i, j)
  IN (IF FNear(o.corner[1], g.ts[j], Tol) /\ FNear(o.corner[2], g.ps[i], Tol) THEN {} ELSE {"corners"})
     \cup (IF FNear(o.centre[1], a[1], Tol) /\ FNear(o.centre[2], a[2], Tol) THEN {} ELSE {"centres"})
     \cup (IF FNear(o.area, FacetArea(g, i, j), Tol) THEN {} ELSE {"areas"})
     \cup (IF VNear(o.cornerxyz, UnitOf(CornerDir(g, i, j)), Tol) THEN {} ELSE {"cartesian-corners"})
     \cup (IF VNear(o.centrexyz, n, Tol) THEN {} ELSE {"cartesian-centres"})
     \cup (IF VNear(o.normal, n, Tol) THEN {} ELSE {"normals"})
     \cup (IF \A q \in 1..Len(c.views) : FNear(o.seen[q], Seen(n, c.views[q]), Tol) THEN {} ELSE {"visible-fraction"})
Chk(c) ==
  LET g == Chosen(c)
  IN (IF c.shape = <<Len(g.ps), Len(g.ts)>> THEN {} ELSE {"shape"})
     \cup (IF c.shape = <<Len(g.ps), Len(g.ts)>> THEN UNION {FacetClauses(g, c, k) : k \in 1..Len(c.pick)} ELSE {})
     \cup (IF FNear(FSum(c.total), Covered(g), FMulInt(Tol, 10)) THEN {} ELSE {"total-area"})
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
