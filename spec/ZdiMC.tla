--------------------------------- MODULE ZdiMC ---------------------------------
(***************************************************************************)
(* The field specification itself: for single coefficients up to degree L  *)
(* at grid directions, the poloidal tangential field with beta is the      *)
(* surface gradient pattern and the toroidal one its quarter turn; linear  *)
(* in the coefficients; a field with one coefficient rotated by a phase is *)
(* the field at a shifted azimuth.                                         *)
(***************************************************************************)
EXTENDS Zdi
CONSTANTS L, Steps
VARIABLES step, deg, ord
zvars == <<step, deg, ord>>
Init == step \in 1..(Steps - 1) /\ deg = 0 /\ ord = 0
Next == /\ UNCHANGED step
        /\ IF ord < deg THEN ord' = ord + 1 /\ deg' = deg ELSE deg < L /\ deg' = deg + 1 /\ ord' = 0
Spec == Init /\ [][Next]_zvars
Dir == Direction(FDivInt(FMulInt(FPi, step), Steps), FRat(7, 10))
One(a, b, g) == <<[l |-> deg, m |-> ord, a |-> a, b |-> b, g |-> g]>>
U == <<FRat(3, 2), FRat(-2, 3)>>
Tol == FTiny(1, 17)
QuarterTurn == LET p == Parts(One(CZ, U, CZ), Dir) q == Parts(One(CZ, CZ, U), Dir)
               IN FNear(p.pp, q.at, Tol) /\ FNear(p.ap, FNeg(q.pt), Tol)
Linear == LET p == Parts(One(U, U, U), Dir) q == Parts(One(XScale(FInt(2), U), XScale(FInt(2), U), XScale(FInt(2), U)), Dir)
          IN \A f \in {"rp", "pp", "pt", "ap", "at"} : FNear(q[f], FMulInt(p[f], 2), Tol)
Shift == LET sh == FRat(2, 5)
             d2 == Direction(FDivInt(FMulInt(FPi, step), Steps), FAdd(FRat(7, 10), sh))
             e == FCosSin(FMulInt(sh, ord))
             v == XMul(U, <<e[1], e[2]>>)
             p == Parts(One(v, v, v), Dir) q == Parts(One(U, U, U), d2)
         IN \A f \in {"rp", "pp", "pt", "ap", "at"} : FNear(p[f], q[f], Tol)
Norm == LET p == Parts(One(U, U, U), Dir)
            x == ToXyz(Radial(p), Polar(p), Azimuthal(p), Dir)
        IN FNear(FSq(Strength(p)), FDot(x, x), FTiny(1, 14))
(* the sum of harmonics; an order and its opposite *)
SignedOrders ==
  LET v == IF ord % 2 = 0 THEN XConj(U) ELSE XNeg(XConj(U))
  IN /\ FNear(RadialOf(One(U, CZ, CZ), Dir), Radial(Parts(One(U, CZ, CZ), Dir)), Tol)
     /\ FNear(RadialOf(<<[l |-> deg, m |-> -ord, a |-> U, b |-> CZ, g |-> CZ]>>, Dir), RadialOf(One(v, CZ, CZ), Dir), Tol)
(* the beta field is the surface gradient of Re(-b N e^{im phi})/(l+1): compare along a meridian by a difference quotient *)
Gradient == LET h == FRat(1, 100000)
                at(t) == Parts(One(U, CZ, CZ), Direction(t, FRat(7, 10))).rp
                t0 == FDivInt(FMulInt(FPi, step), Steps)
                q == FDiv(FSub(at(FAdd(t0, h)), at(FSub(t0, h))), FMulInt(h, 2))
            IN FNear(FMulInt(Parts(One(CZ, U, CZ), Dir).pp, deg + 1), FNeg(q), FMulInt(FTiny(1, 9), (deg + 1) * (deg + 1) * (deg + 1) * (deg + 1)))
=============================================================================
