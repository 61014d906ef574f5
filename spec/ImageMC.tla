-------------------------------- MODULE ImageMC --------------------------------
(* Coefficient after coefficient: the image of a harmonic integrates back to itself and to nothing else,  *)
(* within the accuracy of the grid; images add.                                                           *)
EXTENDS Image
CONSTANTS L, NT, NP
VARIABLES deg, ord
Init == deg = 0 /\ ord = 0
Next == IF ord < deg THEN ord' = ord + 1 /\ deg' = deg ELSE deg < L /\ deg' = deg + 1 /\ ord' = -deg - 1
Spec == Init /\ [][Next]_<<deg, ord>>
GR == ByNumber(NT + 1, NP + 1)
Z == <<FRat(2, 3), FRat(-1, 2)>>
Cs == <<[l |-> deg, m |-> ord, v |-> Z]>>
Tol == FDivInt(FMulInt(FSq(FDivInt(FPi, NT)), (L + 1) * (L + 1)), 10)
Back == LET x == Integrals(ImageOf(Cs, CentreThetas(GR), CentrePhis(GR)), GR, L + 1)
        IN \A k \in 1..Len(x) : XNear(x[k].v, IF x[k].l = deg /\ x[k].m = ord THEN Z ELSE CZ, Tol)
Conjugate == LET t == CentreThetas(GR) p == CentrePhis(GR) a == HarmonicImage(deg, ord, t, p) b == HarmonicImage(deg, -ord, t, p)
             IN \A i \in 1..NP, j \in 1..NT : XNear(b[i][j], IF ord % 2 = 0 THEN XConj(a[i][j]) ELSE XNeg(XConj(a[i][j])), FTiny(1, 20))
=============================================================================
