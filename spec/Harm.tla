--------------------------------- MODULE Harm ---------------------------------
(***************************************************************************)
(* Spherical harmonics over fixed-point reals.                             *)
(* N(l,m) = sqrt((2l+1)(l-m)!/(4 pi (l+m)!)) P_lm(cos theta), Condon-      *)
(* Shortley phase included, by the fully normalised recurrences.           *)
(* Complex numbers are pairs <<re, im>>.                                   *)
(***************************************************************************)
EXTENDS Real, FiniteSets

CZ == <<FZero, FZero>>
C1 == <<FOne, FZero>>
XAdd(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
XSub(a, b) == <<FSub(a[1], b[1]), FSub(a[2], b[2])>>
XMul(a, b) == <<FSub(FMul(a[1], b[1]), FMul(a[2], b[2])), FAdd(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
XScale(x, a) == <<FMul(x, a[1]), FMul(x, a[2])>>
XConj(a) == <<a[1], FNeg(a[2])>>
XNeg(a) == <<FNeg(a[1]), FNeg(a[2])>>
XAbs1(a) == FAdd(FAbs(a[1]), FAbs(a[2]))
XNorm2(a) == FAdd(FSq(a[1]), FSq(a[2]))
XNear(a, b, tol) == FNear(a[1], b[1], tol) /\ FNear(a[2], b[2], tol)
AbsM(m) == IF m < 0 THEN -m ELSE m
Seq0(n) == [i \in 1..n |-> i]

(* recurrence constants as tables (evaluated once) *)
LTop == 32
HighTop == 152           \* replaces LTop where a configuration says so
RootA(l, m) == FSqrt(FRat(4 * l * l - 1, l * l - m * m))
RootB(l, m) == FSqrt(FRat((l - 1) * (l - 1) - m * m, 4 * (l - 1) * (l - 1) - 1))
TabOf(f(_, _), lo) ==        \* tab[m+1][l-m] for l in m+1..LTop
  FoldLeft(LAMBDA acc, mm : Append(acc, FoldLeft(LAMBDA r, k : Append(r, IF mm - 1 + k < lo THEN FZero ELSE f(mm - 1 + k, mm - 1)),
                                                 <<>>, Seq0(LTop - mm + 1))),
           <<>>, Seq0(LTop))
TabA == TabOf(RootA, 1)
TabB == TabOf(RootB, 2)
TabS == FoldLeft(LAMBDA r, m : Append(r, FSqrt(FRat(2 * m + 1, 2 * m))), <<>>, Seq0(LTop))   \* sectoral
TabD ==                      \* sqrt((l-m)(l+m+1)) as tab[l][m+1]
  FoldLeft(LAMBDA acc, l : Append(acc, FoldLeft(LAMBDA r, mm : Append(r, FSqrt(FInt((l - mm + 1) * (l + mm)))), <<>>, Seq0(l))),
           <<>>, Seq0(LTop))
N00 == FSqrt(FDiv(FOne, FMulInt(FPi, 4)))

(* column of order m from its sectoral value: <<N_mm, N_m+1,m, ..., N_Lm>> *)
Column(m, L, nmm, c) ==
  FoldLeft(LAMBDA col, k :
             LET p1 == col[Len(col)]
                 p2 == IF Len(col) > 1 THEN col[Len(col) - 1] ELSE FZero
             IN Append(col, FMul(TabA[m + 1][k], FSub(FMul(c, p1), FMul(TabB[m + 1][k], p2)))),
           <<nmm>>, Seq0(L - m))
(* all columns of orders 0..M: tab[m+1][l-m+1] *)
NTable(L, M, c, s) ==
  FoldLeft(LAMBDA acc, mm :
             LET nmm == IF mm = 1 THEN N00 ELSE FNeg(FMul(TabS[mm - 1], FMul(s, acc[mm - 1][1])))
             IN Append(acc, Column(mm - 1, L, nmm, c)),
           <<>>, Seq0(M + 1))
N(tab, l, m) == tab[m + 1][l - m + 1]
(* dN/dtheta = m cot(theta) N_lm + sqrt((l-m)(l+m+1)) N_l,m+1 ; tab must reach order min(m+1, L) *)
DN(tab, l, m, cot) ==
  FAdd(IF m = 0 THEN FZero ELSE FMul(FMulInt(cot, m), N(tab, l, m)),
       IF m = l THEN FZero ELSE FMul(TabD[l][m + 1], N(tab, l, m + 1)))

(* e^{i m phi} for m = 0..M: seq[m+1] *)
PhaseTable(M, e) == FoldLeft(LAMBDA acc, k : Append(acc, XMul(acc[Len(acc)], e)), <<C1>>, Seq0(M))
Phase(pt, m) == IF m >= 0 THEN pt[m + 1] ELSE XConj(pt[1 - m])

(* A direction: <<cos theta, sin theta, cos phi, sin phi>> *)
Direction(theta, phi) ==
  LET a == FCosSin(theta) b == FCosSin(phi) IN <<a[1], a[2], b[1], b[2]>>
(* the harmonic Y_lm(direction), any sign of m *)
YOf(tab, pt, l, m) ==
  LET n == N(tab, l, AbsM(m))
      v == XScale(n, Phase(pt, m))
  IN IF m < 0 /\ m % 2 # 0 THEN XNeg(v) ELSE v
SeqMax(s) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, 0, s)
=============================================================================
