------------------------------- MODULE StatsMC -------------------------------
(* Facets of a sphere cut in two with the same value on both parts: no statistic moves; *)
(* the mean never exceeds the root mean square, nor that the maximum.                    *)
EXTENDS Stats
VARIABLES fa, fv, first
svars == <<fa, fv, first>>
Vals == {FInt(-3), FZero, FRat(1, 2), FInt(7)}
All(x, y) == [m |-> Mean(x, y), s |-> MeanSquare(x, y), d |-> Variance(x, y), t |-> Largest(y)]
Init == /\ \E x, y \in Vals : fv = <<x, y>>
        /\ \E w \in {FRat(1, 2), FRat(1, 5)} : fa = <<FMul(w, FourPi), FMul(FSub(FOne, w), FourPi)>>
        /\ first = All(fa, fv)
Next == /\ Len(fa) < 4
        /\ \E k \in 1..Len(fa), w \in {FRat(1, 2), FRat(1, 9)} :
             /\ fa' = Append([fa EXCEPT ![k] = FMul(w, fa[k])], FSub(fa[k], FMul(w, fa[k])))
             /\ fv' = Append(fv, fv[k])
        /\ UNCHANGED first
Spec == Init /\ [][Next]_svars
Tol == FTiny(1, 20)
Now == All(fa, fv)
Unmoved == \A k \in DOMAIN first : FNear(first[k], Now[k], Tol)
Pythagoras == FNear(Now.s, FAdd(FSq(Now.m), Now.d), Tol)
Ordered == FLe(FSq(Now.m), FAdd(Now.s, Tol)) /\ FLe(Now.s, FAdd(FSq(Now.t), Tol))
=============================================================================
