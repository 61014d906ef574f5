--------------------------------- MODULE ConvMC ---------------------------------
(***************************************************************************)
(* The conversion of Convert.tla against the two field specifications, one *)
(* coefficient at a time: both forms give one surface field, there and     *)
(* back is the identity on the radial coefficients.                        *)
(***************************************************************************)
EXTENDS Convert, Zdi, Pfss
CONSTANTS L, Steps
VARIABLES step, deg, ord
cvars == <<step, deg, ord>>
RZero == FZero
ROne == FOne
Init == step \in 1..(Steps - 1) /\ deg = 0 /\ ord = 0
Next == /\ UNCHANGED step
        /\ IF ord < deg THEN ord' = ord + 1 /\ deg' = deg ELSE deg < L /\ deg' = deg + 1 /\ ord' = 0
Spec == Init /\ [][Next]_cvars
D == Direction(FDivInt(FMulInt(FPi, step), Steps), FRat(7, 10))
DB == <<D[1], D[2], D[3], FNeg(D[4])>>
V == <<FRat(3, 2), FRat(-2, 3)>>
Key == <<deg, ord>>
ZSet == Put(Empty(<<CZero>>), deg, ord, <<V>>)
Zc(v) == <<[l |-> deg, m |-> ord, a |-> v[1], b |-> v[2], g |-> v[3]]>>
Tol == FTiny(1, 16)
OneField == LET p == ZdiToPfss(ZSet).c[Key][1]
            IN FNear(Parts(Zc(<<V, CZ, CZ>>), D).rp, PfssField(<<[l |-> deg, m |-> ord, g |-> p]>>, DB, FOne, FOne, DefaultRss)[1], Tol)
RoundTrip == XNear(PfssToZdi(ZdiToPfss(ZSet)).c[Key][1], V, Tol)
Vector == LET z == PfssToZdi(ZSet).c[Key]
              q == Parts(Zc(z), D)
              w == PfssField(<<[l |-> deg, m |-> ord, g |-> V]>>, DB, FOne, FOne, DefaultRss)
          IN z[3] = CZ /\ FNear(Radial(q), w[1], Tol) /\ FNear(Polar(q), w[2], Tol) /\ FNear(Azimuthal(q), FNeg(w[3]), Tol)
=============================================================================
