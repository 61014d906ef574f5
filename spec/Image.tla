--------------------------------- MODULE Image ---------------------------------
(***************************************************************************)
(* Images on a surface grid and their spherical-harmonic coefficients.     *)
(* An image is a sequence of rows (azimuth) of complex values (polar).     *)
(* Coefficients: list of [l, m, v] with v complex, m of either sign.       *)
(***************************************************************************)
EXTENDS Grid
ITop(cs) == FoldLeft(LAMBDA x, c : IF c.l > x THEN c.l ELSE x, 0, cs)
Rowwise(n, f(_)) == FoldLeft(LAMBDA r, k : Append(r, f(k)), <<>>, Seq0(n))
(* harmonics tables: one per polar centre, one phase table per azimuthal centre *)
PolTabs(ths, n) == Rowwise(Len(ths), LAMBDA j : LET e == FCosSin(ths[j]) IN NTable(n, n, e[1], e[2]))
AziTabs(phs, n) == Rowwise(Len(phs), LAMBDA i : PhaseTable(n, FCosSin(phs[i])))
CentreThetas(g) == Rowwise(Len(g.ts) - 1, LAMBDA j : Mid(g.ts[j], g.ts[j + 1]))
CentrePhis(g) == Rowwise(Len(g.ps) - 1, LAMBDA i : Mid(g.ps[i], g.ps[i + 1]))
HarmonicImage(l, m, ths, phs) ==
  LET pt == PolTabs(ths, l)
      at == AziTabs(phs, AbsM(m))
  IN Rowwise(Len(phs), LAMBDA i : Rowwise(Len(ths), LAMBDA j : YOf(pt[j], at[i], l, m)))
ImageOf(cs, ths, phs) ==
  LET n == ITop(cs)
      pt == PolTabs(ths, n)
      at == AziTabs(phs, n)
  IN Rowwise(Len(phs), LAMBDA i : Rowwise(Len(ths), LAMBDA j :
        FoldLeft(LAMBDA x, c : XAdd(x, XMul(c.v, YOf(pt[j], at[i], c.l, c.m))), CZ, cs)))
(* integral of conj(Y_lm) times the image: <<value, sum of absolute values>> for all l < limit, -l <= m <= l *)
Widths(s) == Rowwise(Len(s) - 1, LAMBDA k : FSub(s[k + 1], s[k]))
Integrals(img, g, limit) ==
  LET n == limit - 1
      ths == CentreThetas(g)
      pt == PolTabs(ths, n)
      at == AziTabs(CentrePhis(g), n)
      dt == Widths(g.ts)
      dp == Widths(g.ps)
      ws == Rowwise(Len(ths), LAMBDA j : FMul(FCosSin(ths[j])[2], dt[j]))
      one(l, m) ==
        FoldLeft(LAMBDA x, i : FoldLeft(LAMBDA y, j :
                    LET v == XScale(FMul(ws[j], dp[i]), XMul(XConj(YOf(pt[j], at[i], l, m)), img[i][j]))
                    IN <<XAdd(y[1], v), FAdd(y[2], XAbs1(v))>>, x, Seq0(Len(ths))), <<CZ, FZero>>, Seq0(Len(dp)))
  IN FoldLeft(LAMBDA r, ll : r \o FoldLeft(LAMBDA q, mm : LET x == one(ll - 1, mm - ll)
                                                          IN Append(q, [l |-> ll - 1, m |-> mm - ll, v |-> x[1], size |-> x[2]]), <<>>, Seq0(2 * ll - 1)),
              <<>>, Seq0(limit))
MaxOf(s) == FoldLeft(LAMBDA x, y : FMax(x, y), FZero, s)
=============================================================================
