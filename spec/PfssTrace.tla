------------------------------- MODULE PfssTrace -------------------------------
(***************************************************************************)
(* Judges evaluations of the PFSS field (C14): coefs, pts <<r,theta,phi>>, *)
(* r0, rss, obs = <<<<Br, Bt, Bp>>, ...>>.                                 *)
(***************************************************************************)
EXTENDS Pfss, CaseRun
Names == <<"radial", "polar", "azimuthal">>
Where(c, k) == IF FLt(c.pts[k][1], c.r0) THEN "inside" ELSE IF FLe(c.pts[k][1], c.rss) THEN "between" ELSE "outside"
PointClauses(c, k) ==
  LET d == Direction(c.pts[k][2], c.pts[k][3])
      w == PfssField(c.coefs, d, c.pts[k][1], c.r0, c.rss)
      tol == FMulInt(PTol(c.coefs, d), 4)
  IN {Names[i] \o "-" \o Where(c, k) : i \in {j \in 1..3 : ~FNear(w[j], c.obs[k][j], tol)}}
     \cup (IF Where(c, k) = "inside" /\ \E i \in 1..3 : c.obs[k][i] # FZero THEN {"not-zero-inside"} ELSE {})
Chk(c) == UNION {PointClauses(c, k) : k \in 1..Len(c.pts)}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
