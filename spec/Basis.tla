--------------------------------- MODULE Basis ---------------------------------
(***************************************************************************)
(* The functions the fields are made of, each by itself:                   *)
(*   P_lm(cos theta), unnormalised, Condon-Shortley phase included, and    *)
(*   its derivative by theta; the normalisations c_lm and (l-m)!/(l+m)!;   *)
(*   Theta_lm (Schmidt); the radial function R_l and its derivative;       *)
(*   the waves in longitude; the conversion factor; the harmonics Y_lm;    *)
(*   the list of all degrees and orders.                                   *)
(* Factorials are exact integers.                                          *)
(***************************************************************************)
EXTENDS Pfss

Product(a, b) == FoldLeft(LAMBDA acc, k : BMul(acc, BFromInt(a - 1 + k)), BFromInt(1), Seq0(IF b < a THEN 0 ELSE b - a + 1))   \* a (a+1) ... b
(* (l+|m|)! / (l-|m|)!, an integer *)
Ratio(l, m) == Product(l - AbsM(m) + 1, l + AbsM(m))
Size(l, m) == FSqrt(BShl(Ratio(l, m), FL))                          \* P_lm never exceeds this
Odd2(m) == FoldLeft(LAMBDA acc, k : BMul(acc, BFromInt(2 * k - 1)), BFromInt(1), Seq0(m))                  \* (2m-1)!!
Pow2(k) == BShl(BFromInt(2 ^ (k % 15)), k \div 15)

(* the column <<P_mm, ..., P_Lm>> *)
PColumn(m, L, c, s) ==
  LET pmm == BMul(FPow(s, m), IF m % 2 = 0 THEN Odd2(m) ELSE BNeg(Odd2(m)))
  IN FoldLeft(LAMBDA col, k :
                LET l == m + k
                    p1 == col[Len(col)]
                    p2 == IF Len(col) > 1 THEN col[Len(col) - 1] ELSE FZero
                IN Append(col, FDivInt(FSub(FMulInt(FMul(c, p1), 2 * l - 1), FMulInt(p2, l + m - 1)), l - m)),
              <<pmm>>, Seq0(L - m))
PLm(l, m, c, s) == IF m > l THEN FZero ELSE PColumn(m, l, c, s)[l - m + 1]
(* dP/dtheta = m cot(theta) P_lm + P_l,m+1 *)
DPLm(l, m, c, s) ==
  LET a == IF m = 0 THEN FZero ELSE FDiv(FMulInt(FMul(c, PLm(l, m, c, s)), m), s)
  IN FAdd(a, PLm(l, m + 1, c, s))

Sign(m, x) == IF m % 2 = 0 THEN x ELSE FNeg(x)
(* Theta_lm = (-1)^m sqrt((2 - [m=0]) (l-m)!/(l+m)!) P_lm *)
SchmidtOf(l, m, p) == Sign(m, FDiv(IF m = 0 THEN p ELSE FMul(p, FSqrt(FInt(2))), Size(l, m)))

(* R_l = (A - B)/e and R_l' = -((l+1) A + l B)/(r e), with A ~ r^-(l+1) and B ~ r^l, each formed without large factors *)
RadA(l, r, r0) == FMul(r0, FPow(FDiv(r0, r), l + 1))
RadB(l, r, r0, rss) == FMul(FMul(r0, FDiv(r0, rss)), FPow(FDiv(FMul(r0, r), FSq(rss)), l))
Radial(l, r, r0, rss) ==
  LET a == RadA(l, r, r0)
      b == RadB(l, r, r0, rss)
      e == FAdd(FInt(l + 1), FMulInt(FPow(FDiv(r0, rss), 2 * l + 1), l))
  IN <<FDiv(FSub(a, b), e), FNeg(FDiv(FAdd(FMulInt(a, l + 1), FMulInt(b, l)), FMul(r, e)))>>
RadialSize(l, r, r0, rss) == FMul(FDiv(FAdd(RadA(l, r, r0), RadB(l, r, r0, rss)), r), FAdd(FOne, r))

(* g cos m phi + h sin m phi and its derivative *)
WaveIn(m, g, h, phi) ==
  LET e == FCosSin(FMulInt(phi, m))
  IN <<FAdd(FMul(g, e[1]), FMul(h, e[2])), FMulInt(FSub(FMul(h, e[1]), FMul(g, e[2])), m)>>

(* the factor from ZDI to PFSS coefficients *)
Forward(l, m) == Sign(AbsM(m), FSqrt(FDivInt(FDiv(FInt(2 * l + 1), FPi), IF m = 0 THEN 4 ELSE 8)))

AllPairs(top) == FoldLeft(LAMBDA acc, ll : acc \o [mm \in 1..ll |-> <<ll - 1, mm - 1>>], <<>>, Seq0(top + 1))
=============================================================================
