-------------------------------- MODULE EnergyMC --------------------------------
(***************************************************************************)
(* Coefficient lists grown one coefficient at a time: the sums add up, and *)
(* the energy of a coefficient is (up to 1/(...)) its mean squared field:  *)
(* for a single coefficient the mean over a full turn of azimuth of the    *)
(* squared real field is the stated multiple of |c|^2.                     *)
(***************************************************************************)
EXTENDS Energy
CONSTANTS Pairs, Depth
VARIABLES coefs
PairsFull == {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 2>>, <<3, 1>>}
Vals == {<<FOne, FZero>>, <<FRat(-1, 2), FInt(2)>>}
Init == coefs = <<>>
Next == /\ Len(coefs) < Depth
        /\ \E p \in Pairs, v \in Vals : coefs' = Append(coefs, [l |-> p[1], m |-> p[2], a |-> v, b |-> <<v[2], v[1]>>, g |-> XScale(FRat(1, 3), v)])
Spec == Init /\ [][Next]_<<coefs>>
Tol == FTiny(1, 18)
SumsAdd == FNear(Tot(coefs), FAdd(Total(coefs, EA, Every), FAdd(Total(coefs, EB, Every), Total(coefs, EG, Every))), Tol)
Axis == FLe(Total(coefs, EP, Axial), Pol(coefs)) /\ FLe(Total(coefs, EG, Axial), Tor(coefs))
Levels == FNear(FoldLeft(LAMBDA x, l : FAdd(x, Total(coefs, EP, LAMBDA c : c.l = l - 1)), FZero, Seq0(4)), Pol(coefs), Tol)
Positive == \A i \in 1..Len(coefs) : FLe(FZero, EA(coefs[i])) /\ FLe(FZero, EB(coefs[i])) /\ FLe(FZero, EG(coefs[i]))
MeanSquare == \A i \in 1..Len(coefs) :
  LET c == coefs[i]
      n == 2 * c.m + 1            \* equal steps that average exp(2 i m phi) exactly
      f(k) == FSq(XMul(c.a, LET e == FCosSin(FDivInt(FMulInt(FTwoPi, c.m * k), n)) IN <<e[1], e[2]>>)[1])
  IN FNear(FDivInt(FoldLeft(LAMBDA x, k : FAdd(x, f(k)), FZero, Seq0(n)), n), EA(c), Tol)
=============================================================================
