--------------------------------- MODULE RealMC ---------------------------------
(***************************************************************************)
(* The elementary functions of Real: a walk over pairs of numbers, at      *)
(* which the identities that determine them have to hold.                  *)
(***************************************************************************)
EXTENDS Real
CONSTANT Reach
VARIABLES p, q
rvars == <<p, q>>
Init == p = 0 /\ q = 0
Near(n) == {n - 1, n + 1} \cap (-Reach..Reach)
Next == (p' \in Near(p) /\ q' = q) \/ (q' \in Near(q) /\ p' = p)
Spec == Init /\ [][Next]_rvars
A == FAdd(FRat(7 * p, 3), FTiny(p * p, 5))
B == FRat(11 * q, 13)
Tol == FTiny(1, 22)
CA == FCosSin(A)
CB == FCosSin(B)
CS == FCosSin(FAdd(A, B))
Circle == FNear(FAdd(FSq(CA[1]), FSq(CA[2])), FOne, Tol)
Addition == /\ FNear(CS[1], FSub(FMul(CA[1], CB[1]), FMul(CA[2], CB[2])), Tol)
            /\ FNear(CS[2], FAdd(FMul(CA[2], CB[1]), FMul(CA[1], CB[2])), Tol)
Turn == LET t == FCosSin(FAdd(A, FTwoPi))
            h == FCosSin(FAdd(A, FPi))
        IN FNear(t[1], CA[1], Tol) /\ FNear(t[2], CA[2], Tol) /\ FNear(h[1], FNeg(CA[1]), Tol) /\ FNear(h[2], FNeg(CA[2]), Tol)
(* the first terms of the series near zero pin the unit of angle *)
Slope == LET e == FTiny(1, 6)
             c == FCosSin(e)
         IN FNear(c[2], FSub(e, FDivInt(FMul(e, FSq(e)), 6)), Tol) /\ FNear(c[1], FSub(FOne, FDivInt(FSq(e), 2)), FTiny(1, 20))
X == FAdd(FTiny(1, 4), FMul(FSq(A), FRat(3, 7)))
Y == FAdd(FTiny(3, 2), FSq(B))
Log == /\ FNear(FLn(FMul(X, Y)), FAdd(FLn(X), FLn(Y)), FTiny(1, 18))
       /\ FNear(FLn(FAdd(FOne, FTiny(1, 9))), FSub(FTiny(1, 9), FDivInt(FTiny(1, 18), 2)), Tol)
Root == LET s == FSqrt(X) IN FNear(FSq(s), X, FMul(FAdd(FOne, s), Tol))
Quotient == FNear(FMul(FDiv(A, Y), Y), A, FMul(FAdd(FOne, Y), Tol))
Power == FNear(FPow(B, 5), FMul(FMul(B, B), FMul(B, FMul(B, B))), FTiny(1, 18))
Order == (FLt(A, B) <=> ~FLe(B, A)) /\ FMax(A, B) = FNeg(FMin(FNeg(A), FNeg(B)))
Pi == FNear(FPi, FAdd(FInt(3), FAdd(FTiny(141592653, 9), FAdd(FTiny(589793238, 18), FTiny(462643383, 27)))), FTiny(1, 24))
=============================================================================
