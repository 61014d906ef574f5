-------------------------------- MODULE Recover --------------------------------
(***************************************************************************)
(* Getting ZDI coefficients back from samples of a field on a regular grid *)
(* of facet centres: the vector harmonics are orthogonal, so projecting    *)
(* the samples on them (sums over facets) gives the coefficients within    *)
(* the accuracy of the midpoint rule in the polar angle.                   *)
(***************************************************************************)
EXTENDS Zdi, Grid
(* inner products: <r, N e>, and for the tangential part with t = -dN/dtheta, q = m N / sin theta,                *)
(* B_pol = Re((t b + i q g) e), B_azi = Re((t g - i q b) e) over (l+1): each has squared norm l(l+1)/(l+1)^2       *)
Samples(cs, g) ==
  FoldLeft(LAMBDA r, i : r \o FoldLeft(LAMBDA s, j : Append(s,
             LET d == CentreDir(g, i, j) p == Parts(cs, d)
             IN [d |-> d, w |-> FMul(d[2], FMul(FSub(g.ts[j + 1], g.ts[j]), FSub(g.ps[i + 1], g.ps[i]))), r |-> Radial(p), p |-> Polar(p), a |-> Azimuthal(p)]),
             <<>>, Seq0(Len(g.ts) - 1)), <<>>, Seq0(Len(g.ps) - 1))
(* <<alpha, beta, gamma>> of degree n and order o; for o = 0 the real part *)
Project(ss, n, o) ==
  LET step(acc, s) ==
        LET tab == NTable(n, IF o < n THEN o + 1 ELSE o, s.d[1], s.d[2])
            e == XConj(Phase(PhaseTable(o, <<s.d[3], s.d[4]>>), o))
            cot == FDiv(s.d[1], s.d[2])
            t == FNeg(DN(tab, n, o, cot))
            q == FDiv(FMulInt(N(tab, n, o), o), s.d[2])
            ie(x) == <<FNeg(FMul(x, e[2])), FMul(x, e[1])>>         \* i x e
        IN << XAdd(acc[1], XScale(FMul(s.w, FMul(s.r, N(tab, n, o))), e)),
              XAdd(acc[2], XAdd(XScale(FMul(s.w, FMul(s.p, t)), e), ie(FMul(s.w, FMul(s.a, q))))),
              XAdd(acc[3], XSub(XScale(FMul(s.w, FMul(s.a, t)), e), ie(FMul(s.w, FMul(s.p, q))))) >>
      x == FoldLeft(step, <<CZ, CZ, CZ>>, ss)
      two == IF o = 0 THEN 1 ELSE 2
      scale(z, num, den) == <<FDivInt(FMulInt(z[1], num), den), FDivInt(FMulInt(z[2], num), den)>>
  IN << scale(x[1], two, 1),
        IF n = 0 THEN CZ ELSE scale(x[2], two, n),
        IF n = 0 THEN CZ ELSE scale(x[3], two, n) >>
(* what the accuracy of a grid with polar step h allows, for degrees up to n and coefficients of total size s *)
GridTol(h, n, s) == FAdd(FTiny(1, 13), FMul(s, FAdd(FTiny(1, 9), FDivInt(FMulInt(FSq(h), (n + 1) * (n + 1)), 10))))
SizeAll(cs) == FoldLeft(LAMBDA x, c : FAdd(x, FAdd(XAbs1(c.a), FAdd(XAbs1(c.b), XAbs1(c.g)))), FZero, cs)
=============================================================================
