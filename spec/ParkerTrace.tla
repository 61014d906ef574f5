------------------------------ MODULE ParkerTrace ------------------------------
(***************************************************************************)
(* Judges wind solutions (C21).  op "wind": unit numbers T, M, R, rho0 and *)
(* the constants G, k, mp; the sonic values reported; obs: for each radius *)
(* asked for, the speed and the density observed.  op "both": both         *)
(* solutions at dimensionless radii.                                       *)
(***************************************************************************)
EXTENDS Parker, CaseRun
Tol == FTiny(1, 11)
Eq(a, b) == FNear(a, b, Tol)
OutOf(c, r) == IF FLt(Ln(r), Ln(c.R)) THEN c.R ELSE r            \* radii inside the star count as the surface
Over(a, b) == LET q == FDiv(a[1], b[1]) IN <<q, a[2] - b[2]>>
LnPi4 == FLn(FMulInt(FPi, 4))
(* a zero radius has no logarithm; the recorder sends it as mantissa 0 *)
RadiusOf(c, r) == IF r[1] = FZero THEN c.R ELSE OutOf(c, r)
WindClauses(c) ==
  LET lnrs == FSub(FAdd(FAdd(Ln(c.G), Ln(c.M)), Ln(c.mp)), FAdd(FAdd(FL2(2), Ln(c.T)), Ln(c.k)))
      lncs == FDivInt(FSub(FAdd(FAdd(FL2(1), Ln(c.k)), Ln(c.T)), Ln(c.mp)), 2)
      surface == FAdd(FMulInt(Ln(c.R), 2), FAdd(Ln(c.vR), Ln(c.rho0)))
  IN (IF Eq(Ln(c.rs), lnrs) THEN {} ELSE {"sonic-radius"})
     \cup (IF Eq(Ln(c.cs), lncs) THEN {} ELSE {"sonic-speed"})
     \cup (IF Eq(Ln(c.flux), FAdd(LnPi4, surface)) THEN {} ELSE {"mass-flux"})
     \cup (IF Eq(Ln(c.flux), FAdd(LnPi4, FAdd(FMulInt(Ln(c.rs), 2), FAdd(Ln(c.cs), Ln(c.rhos))))) THEN {} ELSE {"sonic-density"})
     \cup UNION {LET o == c.obs[n]
                     r == RadiusOf(c, o.r)
                     x == Over(r, c.rs)
                     v == Over(o.v, c.cs)
                 IN (IF OnCurve(v, x, Tol) THEN {} ELSE {"wind-equation"})
                    \cup (IF Transonic(v, x) THEN {} ELSE {"branch"})
                    \cup (IF Eq(FAdd(FMulInt(Ln(r), 2), FAdd(Ln(o.v), Ln(o.d))), surface) THEN {} ELSE {"mass-conservation"})
                    \cup (IF r = c.R /\ ~Eq(Ln(o.d), Ln(c.rho0)) THEN {"base-density"} ELSE {})
                 : n \in 1..Len(c.obs)}
BothClauses(c) ==
  UNION {LET o == c.obs[n]
         IN (IF OnCurve(o.lo, o.r, Tol) /\ OnCurve(o.hi, o.r, Tol) THEN {} ELSE {"wind-equation"})
            \cup (IF BelowOne(o.lo) /\ AboveOne(o.hi) THEN {} ELSE {"branch"})
            \cup (IF OnCurve(o.v, o.r, Tol) /\ Transonic(o.v, o.r) THEN {} ELSE {"chosen-branch"})
         : n \in 1..Len(c.obs)}
Chk(c) == IF c.op = "wind" THEN WindClauses(c) ELSE BothClauses(c)
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
