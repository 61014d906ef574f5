--------------------------------- MODULE Pfss ---------------------------------
(***************************************************************************)
(* The potential field with a source surface of a list of coefficients     *)
(* [l, m, g] (g complex: cosine and sine coefficient), m >= 0, with        *)
(* Schmidt semi-normalised functions without Condon-Shortley phase:        *)
(*   Theta_lm = (-1)^m sqrt(4 pi (2 - [m=0]) / (2l+1)) N_lm                *)
(*   potential = sum R_l(r) Theta_lm (g cos m phi + h sin m phi)           *)
(***************************************************************************)
EXTENDS Harm

PTopL(cs) == FoldLeft(LAMBDA x, c : IF c.l > x THEN c.l ELSE x, 0, cs)
PTopM(cs) == FoldLeft(LAMBDA x, c : IF c.m > x THEN c.m ELSE x, 0, cs)

TabSch ==        \* |Theta / N| as tab[l+1][m+1]
  FoldLeft(LAMBDA acc, ll : Append(acc, FoldLeft(LAMBDA r, mm : Append(r,
               FSqrt(FDivInt(FMulInt(FPi, IF mm = 1 THEN 4 ELSE 8), 2 * ll - 1))), <<>>, Seq0(ll))),
           <<>>, Seq0(LTop))
Schmidt(l, m) == IF m % 2 = 0 THEN TabSch[l + 1][m + 1] ELSE FNeg(TabSch[l + 1][m + 1])

(* the two independent radial solutions are r^-(l+1) and r^l; the combination vanishing at rss with -R'(r0) = 1:       *)
(*   R = r0 (r0/r)^(l+1) (1 - (r/rss)^(2l+1)) / E,   -R' = (r0/r)^(l+2) (l+1 + l (r/rss)^(2l+1)) / E                    *)
(*   E = l+1 + l (r0/rss)^(2l+1)                                                                                         *)
RadE(l, r0, rss) == FAdd(FInt(l + 1), FMulInt(FPow(FDiv(r0, rss), 2 * l + 1), l))
RadR(l, r, r0, rss) ==                                    \* R / r, the form in which it is needed
  LET t == FPow(FDiv(r0, r), l + 2)
      u == FPow(FDiv(r, rss), 2 * l + 1)
  IN FDiv(FMul(t, FSub(FOne, u)), RadE(l, r0, rss))
RadD(l, r, r0, rss) ==                                    \* -R'
  LET t == FPow(FDiv(r0, r), l + 2)
      u == FPow(FDiv(r, rss), 2 * l + 1)
  IN FDiv(FMul(t, FAdd(FInt(l + 1), FMulInt(u, l))), RadE(l, r0, rss))

(* field at radius r in [r0, rss]: <<radial, polar, azimuthal>> *)
Between(cs, dir, r, r0, rss) ==
  LET L == PTopL(cs)
      M == PTopM(cs)
      tab == NTable(L, IF M < L THEN M + 1 ELSE M, dir[1], dir[2])
      pt == PhaseTable(M, <<dir[3], dir[4]>>)
      cot == FDiv(dir[1], dir[2])
      rad == FoldLeft(LAMBDA acc, k : Append(acc, <<RadR(k - 1, r, r0, rss), RadD(k - 1, r, r0, rss)>>), <<>>, Seq0(L + 1))
      step(acc, c) ==
        LET sc == Schmidt(c.l, c.m)
            n == FMul(sc, N(tab, c.l, c.m))
            d == FMul(sc, DN(tab, c.l, c.m, cot))
            e == pt[c.m + 1]
            phi == FAdd(FMul(c.g[1], e[1]), FMul(c.g[2], e[2]))
            dphi == FMulInt(FSub(FMul(c.g[2], e[1]), FMul(c.g[1], e[2])), c.m)
            rr == rad[c.l + 1]
        IN << FAdd(acc[1], FMul(rr[2], FMul(n, phi))),
              FSub(acc[2], FMul(rr[1], FMul(d, phi))),
              FSub(acc[3], FDiv(FMul(rr[1], FMul(n, dphi)), dir[2])) >>
  IN FoldLeft(step, <<FZero, FZero, FZero>>, cs)
PfssField(cs, dir, r, r0, rss) ==
  IF FLt(r, r0) THEN <<FZero, FZero, FZero>>
  ELSE IF FLe(r, rss) THEN Between(cs, dir, r, r0, rss)
  ELSE LET b == Between(cs, dir, rss, r0, rss)
           q == FSq(FDiv(rss, r))
       IN <<FMul(q, b[1]), FMul(q, b[2]), FMul(q, b[3])>>

PMagnitude(cs) == FoldLeft(LAMBDA x, c : FAdd(x, FMulInt(XAbs1(c.g), c.l + 1)), FZero, cs)
PTol(cs, dir) ==
  FAdd(FTiny(1, 23), FMul(PMagnitude(cs), FAdd(FTiny(1, 10), FDiv(FTiny(1, 13), FSq(dir[2])))))
=============================================================================
