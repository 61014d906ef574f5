--------------------------------- MODULE PfssMC ---------------------------------
(***************************************************************************)
(* The field specification checked against what it should be: the radial   *)
(* coefficient field at the surface, no tangential field at the source     *)
(* surface, divergence-free and curl-free in between (difference           *)
(* quotients), continuous and inverse-square outside.                      *)
(***************************************************************************)
EXTENDS Pfss
CONSTANTS L, Steps
VARIABLES step, deg, ord
pvars == <<step, deg, ord>>
Init == step \in 1..(Steps - 1) /\ deg = 0 /\ ord = 0
Next == /\ UNCHANGED step
        /\ IF ord < deg THEN ord' = ord + 1 /\ deg' = deg ELSE deg < L /\ deg' = deg + 1 /\ ord' = 0
Spec == Init /\ [][Next]_pvars
Th == FDivInt(FMulInt(FPi, step), Steps)
Ph == FRat(7, 10)
R0 == FOne
RS == FRat(5, 2)
Coef == <<[l |-> deg, m |-> ord, g |-> <<FRat(3, 2), FRat(-2, 3)>>]>>
F(r, t, p) == PfssField(Coef, Direction(t, p), r, R0, RS)
Tol == FTiny(1, 16)
Surface == LET d == Direction(Th, Ph)
               tab == NTable(deg, ord, d[1], d[2])
               pt == PhaseTable(ord, <<d[3], d[4]>>)
               c == Coef[1].g
           IN FNear(F(R0, Th, Ph)[1],
                    FMul(FMul(Schmidt(deg, ord), N(tab, deg, ord)), FAdd(FMul(c[1], pt[ord + 1][1]), FMul(c[2], pt[ord + 1][2]))), Tol)
SourceSurface == LET f == F(RS, Th, Ph) IN FNear(f[2], FZero, Tol) /\ FNear(f[3], FZero, Tol)
Outside == LET f == F(FInt(5), Th, Ph) g == F(RS, Th, Ph) IN \A i \in 1..3 : FNear(FMulInt(f[i], 4), g[i], Tol)
Inside == F(FRat(99, 100), Th, Ph) = <<FZero, FZero, FZero>>
H == FRat(1, 20000)
Dif(f(_)) == FDiv(FSub(f(H), f(FNeg(H))), FMulInt(H, 2))
Rough == FMulInt(FTiny(1, 8), (deg + 2) * (deg + 2) * (deg + 2) * (deg + 2))
RR == FRat(7, 5)
S == FCosSin(Th)
(* r^2 sin(theta) div B = sin(theta) d(r^2 Br)/dr + r d(sin(theta) Bt)/dtheta + r dBp/dphi *)
Divergence ==
  LET sn == S[2]
      a == Dif(LAMBDA h : FMul(FSq(FAdd(RR, h)), F(FAdd(RR, h), Th, Ph)[1]))
      b == Dif(LAMBDA h : FMul(FCosSin(FAdd(Th, h))[2], F(RR, FAdd(Th, h), Ph)[2]))
      c == Dif(LAMBDA h : F(RR, Th, FAdd(Ph, h))[3])
  IN FNear(FAdd(FMul(sn, a), FMul(RR, FAdd(b, c))), FZero, Rough)
(* curl: d(r Bt)/dr = dBr/dtheta, d(r Bp)/dr sin = dBr/dphi, d(sin Bp)/dtheta = dBt/dphi *)
Curl ==
  /\ FNear(Dif(LAMBDA h : FMul(FAdd(RR, h), F(FAdd(RR, h), Th, Ph)[2])), Dif(LAMBDA h : F(RR, FAdd(Th, h), Ph)[1]), Rough)
  /\ FNear(FMul(S[2], Dif(LAMBDA h : FMul(FAdd(RR, h), F(FAdd(RR, h), Th, Ph)[3]))), Dif(LAMBDA h : F(RR, Th, FAdd(Ph, h))[1]), Rough)
  /\ FNear(Dif(LAMBDA h : FMul(FCosSin(FAdd(Th, h))[2], F(RR, FAdd(Th, h), Ph)[3])), Dif(LAMBDA h : F(RR, Th, FAdd(Ph, h))[2]), Rough)
=============================================================================
