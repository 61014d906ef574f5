-------------------------------- MODULE BasisMC --------------------------------
(* For degrees to 12 and angles on a grid: the unnormalised recurrence agrees with the normalised one, has the parity,   *)
(* size and slope of the Legendre functions; the radial function is made of r^l and r^-(l+1), vanishes at the source     *)
(* surface and has slope -1 at the star; the list of pairs is complete and ordered.                                      *)
EXTENDS Basis, TLC
VARIABLES st
Init == st \in {x \in [l : 0..12, m : 0..12, t : {1, 4, 9, 15}, r : {10, 13, 20, 25, 31}] : x.m <= x.l}
Next == UNCHANGED st
Spec == Init /\ [][Next]_st
D == Direction(FDivInt(FMulInt(FPi, st.t), 16), FZero)
P(l) == PLm(l, st.m, D[1], D[2])
Close(a, b, size) == FNear(a, b, FMul(FAdd(size, FOne), FTiny(1, 18)))
SameAsNormalised ==
  LET tab == NTable(st.l, st.m, D[1], D[2])
      norm == FSqrt(FDiv(FInt(2 * st.l + 1), FMulInt(FPi, 4)))
  IN Close(FMul(norm, P(st.l)), FMul(N(tab, st.l, st.m), Size(st.l, st.m)), Size(st.l, st.m))
Parity == LET o == PLm(st.l, st.m, FNeg(D[1]), D[2]) IN Close(o, Sign(st.l + st.m, P(st.l)), Size(st.l, st.m))
Bounded == FLe(FAbs(P(st.l)), FAdd(Size(st.l, st.m), FTiny(1, 9)))
(* sin dP/dtheta = l cos P_lm - (l + m) P_l-1,m : another way to the slope *)
Slope == Close(FMul(D[2], DPLm(st.l, st.m, D[1], D[2])),
               FSub(FMulInt(FMul(D[1], P(st.l)), st.l), IF st.m > st.l - 1 THEN FZero ELSE FMulInt(P(st.l - 1), st.l + st.m)),
               FMulInt(Size(st.l, st.m), 2 * st.l + 1))
R(x) == Radial(st.l, FDivInt(FInt(x), 10), FOne, FRat(5, 2))
(* -r R' - (l+1) R and -r R' + l R are multiples of r^l and of r^-(l+1) *)
Part(x, k) == FSub(FNeg(FMul(FDivInt(FInt(x), 10), R(x)[2])), FMulInt(R(x)[1], k))
RadialParts ==
  /\ FNear(FMul(Part(10, st.l + 1), FPow(FDivInt(FInt(st.r), 10), st.l)), Part(st.r, st.l + 1), FTiny(1, 15))
  /\ FNear(Part(10, -st.l), FMul(Part(st.r, -st.l), FPow(FDivInt(FInt(st.r), 10), st.l + 1)), FTiny(1, 10))
(* as in the potential field *)
RadialSame ==
  LET r == FDivInt(FInt(st.r), 10)
      w == Radial(st.l, r, FOne, FRat(5, 2))
  IN FNear(w[1], FMul(r, RadR(st.l, r, FOne, FRat(5, 2))), FTiny(1, 14)) /\ FNear(w[2], FNeg(RadD(st.l, r, FOne, FRat(5, 2))), FTiny(1, 14))
RadialEnds == FNear(R(10)[2], FNeg(FOne), FTiny(1, 20)) /\ FNear(R(25)[1], FZero, FTiny(1, 20))
Pairs ==
  LET s == AllPairs(st.l)
  IN /\ Len(s) = ((st.l + 1) * (st.l + 2)) \div 2
     /\ \A i \in 1..Len(s) : s[i][2] \in 0..s[i][1] /\ s[i][1] <= st.l
     /\ \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1] \/ (s[i][1] = s[i + 1][1] /\ s[i][2] < s[i + 1][2])
=============================================================================
