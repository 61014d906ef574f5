-------------------------------- MODULE GridMC --------------------------------
(* Grids refined one corner at a time: the areas always add up to the region covered,  *)
(* every centre is inside its facet, normals are unit vectors.                          *)
EXTENDS Grid
CONSTANT Most
VARIABLES tcs, pcs
gvars == <<tcs, pcs>>
Init == tcs = <<FZero, FPi>> /\ pcs = <<FZero, FTwoPi>>
Split(s, k, w) == LET x == FAdd(s[k], FMul(w, FSub(s[k + 1], s[k]))) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
Next == \/ /\ Len(tcs) < Most /\ UNCHANGED pcs
           /\ \E k \in 1..(Len(tcs) - 1), w \in {FRat(1, 2), FRat(1, 7)} : tcs' = Split(tcs, k, w)
        \/ /\ Len(pcs) < Most /\ UNCHANGED tcs
           /\ \E k \in 1..(Len(pcs) - 1), w \in {FRat(1, 2), FRat(3, 5)} : pcs' = Split(pcs, k, w)
Spec == Init /\ [][Next]_gvars
G == [ts |-> tcs, ps |-> pcs]
Cells == {<<i, j>> : i \in 1..(Len(pcs) - 1), j \in 1..(Len(tcs) - 1)}
Tol == FTiny(1, 20)
AreasAddUp == FNear(FoldLeft(LAMBDA x, i : FoldLeft(LAMBDA y, j : FAdd(y, FacetArea(G, i, j)), x, Seq0(Len(tcs) - 1)), FZero, Seq0(Len(pcs) - 1)),
                    FMulInt(FPi, 4), Tol)
Positive == \A c \in Cells : FLt(FZero, FacetArea(G, c[1], c[2]))
UnitNormals == \A c \in Cells : FNear(Norm(Normal(G, c[1], c[2])), FOne, Tol)
=============================================================================
