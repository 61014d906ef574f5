------------------------------- MODULE RecoverMC -------------------------------
(* One coefficient after another, alpha, beta or gamma, sampled on a coarse grid: projecting gives it back and  *)
(* nothing else, within the accuracy allowed.                                                                   *)
EXTENDS Recover
CONSTANTS L, NT, NP
VARIABLES deg, ord, which
Init == deg = 0 /\ ord = 0 /\ which = 1
Next == IF which < 3 /\ deg > 0 THEN which' = which + 1 /\ UNCHANGED <<deg, ord>>
        ELSE /\ which' = 1
             /\ IF ord < deg THEN ord' = ord + 1 /\ deg' = deg ELSE deg < L /\ deg' = deg + 1 /\ ord' = 0
Spec == Init /\ [][Next]_<<deg, ord, which>>
Val == IF ord = 0 THEN <<FOne, FZero>> ELSE <<FRat(1, 2), FRat(-3, 4)>>
Cs == <<[l |-> deg, m |-> ord, a |-> IF which = 1 THEN Val ELSE CZ, b |-> IF which = 2 THEN Val ELSE CZ, g |-> IF which = 3 THEN Val ELSE CZ]>>
GR == ByNumber(NT + 1, NP + 1)
PairsUpTo == UNION {{<<n, o>> : o \in 0..n} : n \in 0..L}
Recovered ==
  LET ss == Samples(Cs, GR)
      tol == GridTol(FDivInt(FPi, NT), L, SizeAll(Cs))
  IN \A p \in PairsUpTo :
       LET x == Project(ss, p[1], p[2])
       IN \A k \in 1..3 : LET want == IF p = <<deg, ord>> /\ k = which THEN Val ELSE CZ
                          IN XNear(x[k], want, tol)
=============================================================================
