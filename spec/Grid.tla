--------------------------------- MODULE Grid ---------------------------------
(***************************************************************************)
(* The surface grid: increasing polar corner angles ts and azimuthal       *)
(* corner angles ps; facet (i, j) lies between ps[i], ps[i+1] and ts[j],   *)
(* ts[j+1].                                                                *)
(***************************************************************************)
EXTENDS Geometry

Linear(lo, hi, n) == FoldLeft(LAMBDA r, k : Append(r, FAdd(lo, FDivInt(FMulInt(FSub(hi, lo), k - 1), IF n = 1 THEN 1 ELSE n - 1))), <<>>, Seq0(n))
ByNumber(nt, np) == [ts |-> Linear(FZero, FPi, nt), ps |-> Linear(FZero, FTwoPi, np)]
DefaultGrid == ByNumber(65, 130)

CornerDir(g, i, j) == Direction(g.ts[j], g.ps[i])
CentreAngles(g, i, j) == <<Mid(g.ts[j], g.ts[j + 1]), Mid(g.ps[i], g.ps[i + 1])>>
CentreDir(g, i, j) == LET a == CentreAngles(g, i, j) IN Direction(a[1], a[2])
FacetArea(g, i, j) == PatchArea(g.ts[j], g.ts[j + 1], g.ps[i], g.ps[i + 1])
Normal(g, i, j) == UnitOf(CentreDir(g, i, j))
Covered(g) == PatchArea(g.ts[1], g.ts[Len(g.ts)], g.ps[1], g.ps[Len(g.ps)])
=============================================================================
