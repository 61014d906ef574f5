------------------------------- MODULE FieldTrace -------------------------------
(***************************************************************************)
(* Judges evaluations of ZDI fields (C11, C12).                            *)
(* case: coefs, pts (<<theta, phi>>), obs: record of observed quantities,  *)
(* each a sequence over the points; select: what the magnetogram was       *)
(* restricted to.                                                          *)
(***************************************************************************)
EXTENDS Zdi, CaseRun

Selected(c) ==
  LET s == c.select
  IN CASE s.kind = "all" -> c.coefs
       [] s.kind = "range" -> KeepRange(c.coefs, s.lo, s.hi, s.mo, s.mh)
       [] s.kind = "poloidal" -> OnlyPoloidal(c.coefs)
       [] s.kind = "toroidal" -> OnlyToroidal(c.coefs)
Near3(v, w, tol) == \A i \in 1..3 : FNear(v[i], w[i], tol)
PointClauses(cs, c, k) ==
  LET d == Direction(c.pts[k][1], c.pts[k][2])
      p == Parts(cs, d)
      tol == FieldTol(cs, d)
      want == [r |-> Radial(p), p |-> Polar(p), a |-> Azimuthal(p), rp |-> p.rp, rt |-> FZero, pp |-> p.pp, pt |-> p.pt,
               ap |-> p.ap, at |-> p.at, strength |-> Strength(p)]
      xyz == [xyz |-> ToXyz(want.r, want.p, want.a, d), xyzp |-> ToXyz(p.rp, p.pp, p.ap, d),
              xyzt |-> ToXyz(FZero, p.pt, p.at, d)]
      wide == FMulInt(tol, 4)
  IN {f \in DOMAIN c.obs \cap DOMAIN want : ~FNear(want[f], c.obs[f][k], wide)}
     \cup {f \in DOMAIN c.obs \cap DOMAIN xyz : ~Near3(xyz[f], c.obs[f][k], wide)}
(* orders of either sign: the radial field *)
Signed(cs) == \E i \in 1..Len(cs) : cs[i].m < 0
SignedClauses(cs, c, k) ==
  LET d == Direction(c.pts[k][1], c.pts[k][2])
      want == RadialOf(cs, d)
      wide == FMulInt(FieldTol(cs, d), 4)
  IN {f \in DOMAIN c.obs \cap {"r", "rp"} : ~FNear(want, c.obs[f][k], wide)}
Chk(c) ==
  LET cs == Selected(c) IN IF Signed(cs) THEN UNION {SignedClauses(cs, c, k) : k \in 1..Len(c.pts)} ELSE UNION {PointClauses(cs, c, k) : k \in 1..Len(c.pts)}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
