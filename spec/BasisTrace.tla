------------------------------- MODULE BasisTrace -------------------------------
(***************************************************************************)
(* Judges direct calls of the functions behind the fields (C36).           *)
(*  lpmn, theta, theta1 : pairs, pts, obs[point][pair] = <<value, slope>>  *)
(*                        (theta1: value only)                             *)
(*  radial : l, r0, rss, pts, obs[k] = <<R, R'>>                           *)
(*  wave   : m, g, h, pts, obs[k] = <<value, slope>>                       *)
(*  norm   : kind "c" or "ratio", pairs, obs[k] = <<mantissa, exponent>>   *)
(*  factor : pairs, obs[k]                                                 *)
(*  ylm    : l, m, pts = <<theta, phi>>, obs[k] complex                    *)
(*  pairs  : top, got                                                      *)
(***************************************************************************)
EXTENDS Basis, CaseRun

Slack(s) == FAdd(FTiny(1, 10), FDiv(FTiny(1, 13), FSq(s)))
Legendre(c, k, j) ==
  LET e == FCosSin(c.pts[k])
      l == c.pairs[j][1]
      m == c.pairs[j][2]
      o == c.obs[k][j]
      p == PLm(l, m, e[1], e[2])
      schmidt == c.op # "lpmn"
      w == IF schmidt THEN SchmidtOf(l, m, p) ELSE p
      size == IF schmidt THEN FInt(2) ELSE Size(l, m)
      slopes == c.op # "theta1"
      dw == IF ~slopes THEN FZero
            ELSE LET d == DPLm(l, m, e[1], e[2]) IN IF schmidt THEN SchmidtOf(l, m, d) ELSE d
  IN (IF FNear(w, o[1], FMul(size, FTiny(1, 10))) THEN {} ELSE {c.op \o "-value"})
     \cup (IF ~slopes \/ FNear(dw, o[2], FMul(FMulInt(size, l + 1), Slack(e[2]))) THEN {} ELSE {c.op \o "-slope"})
RadialClauses(c, k) ==
  LET w == Radial(c.l, c.pts[k], c.r0, c.rss)
      tol == FAdd(FTiny(1, 23), FMul(RadialSize(c.l, c.pts[k], c.r0, c.rss), FTiny(1, 11)))
  IN (IF FNear(w[1], c.obs[k][1], tol) THEN {} ELSE {"radial-value"}) \cup (IF FNear(w[2], c.obs[k][2], tol) THEN {} ELSE {"radial-slope"})
WaveClauses(c, k) ==
  LET w == WaveIn(c.m, c.g, c.h, c.pts[k])
      tol == FAdd(FTiny(1, 20), FMul(FMulInt(FAdd(FAbs(c.g), FAbs(c.h)), c.m + 1), FTiny(1, 11)))
  IN (IF FNear(w[1], c.obs[k][1], tol) THEN {} ELSE {"wave-value"}) \cup (IF FNear(w[2], c.obs[k][2], tol) THEN {} ELSE {"wave-slope"})
(* obs = mantissa 2^exponent; for "c" its square is (2l+1)/(4 pi) (l-m)!/(l+m)!, for "ratio" itself (l-m)!/(l+m)! *)
NormClauses(c, k) ==
  LET l == c.pairs[k][1]
      m == c.pairs[k][2]
      f == c.obs[k][1]
      e == IF c.kind = "c" THEN 2 * c.obs[k][2] ELSE c.obs[k][2]
      a == IF c.kind = "c" THEN FMulInt(FMul(FPi, FSq(f)), 4) ELSE f
      b == IF c.kind = "c" THEN FInt(2 * l + 1) ELSE FOne
      lhs1 == IF m >= 0 THEN BMul(a, Ratio(l, m)) ELSE a
      rhs1 == IF m >= 0 THEN b ELSE BMul(b, Ratio(l, m))
      lhs == IF e >= 0 THEN BMul(lhs1, Pow2(e)) ELSE lhs1
      rhs == IF e >= 0 THEN rhs1 ELSE BMul(rhs1, Pow2(-e))
  IN IF FLt(FZero, f) /\ FLe(BMul(FAbs(FSub(lhs, rhs)), Pow10(10)), rhs) THEN {} ELSE {"norm-" \o c.kind}
FactorClauses(c, k) ==
  IF FNear(Forward(c.pairs[k][1], c.pairs[k][2]), c.obs[k], FTiny(1, 12)) THEN {} ELSE {"factor"}
YlmClauses(c, k) ==
  LET d == Direction(c.pts[k][1], c.pts[k][2])
      tab == NTable(c.l, AbsM(c.m), d[1], d[2])
      pt == PhaseTable(AbsM(c.m), <<d[3], d[4]>>)
  IN IF XNear(YOf(tab, pt, c.l, c.m), c.obs[k], FTiny(1, 10)) THEN {} ELSE {"harmonic"}
Chk(c) ==
  CASE c.op \in {"lpmn", "theta", "theta1"} -> UNION {UNION {Legendre(c, k, j) : j \in 1..Len(c.pairs)} : k \in 1..Len(c.obs)}
    [] c.op = "radial" -> UNION {RadialClauses(c, k) : k \in 1..Len(c.obs)}
    [] c.op = "wave" -> UNION {WaveClauses(c, k) : k \in 1..Len(c.obs)}
    [] c.op = "norm" -> UNION {NormClauses(c, k) : k \in 1..Len(c.obs)}
    [] c.op = "factor" -> UNION {FactorClauses(c, k) : k \in 1..Len(c.obs)}
    [] c.op = "ylm" -> UNION {YlmClauses(c, k) : k \in 1..Len(c.obs)}
    [] c.op = "pairs" -> IF c.got = AllPairs(c.top) THEN {} ELSE {"pairs"}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
