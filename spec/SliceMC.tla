-------------------------------- MODULE SliceMC --------------------------------
(***************************************************************************)
(* Walks over a plane: points of a plane lie in it, their in-plane part is *)
(* (u, v), the field of an axial dipole in each plane is the closed form   *)
(* and is symmetric, and it turns with the plane.                          *)
(***************************************************************************)
EXTENDS Slice
CONSTANT Reach
VARIABLES normal, pu, pv
svars == <<normal, pu, pv>>
Init == normal \in Normals /\ pu = 1 /\ pv = 0
Next == /\ UNCHANGED normal
        /\ \/ pu' \in {pu - 1, pu + 1} \cap (-Reach..Reach) /\ pv' = pv
           \/ pv' \in {pv - 1, pv + 1} \cap (-Reach..Reach) /\ pu' = pu
Spec == Init /\ [][Next]_svars
U == FRat(3 * pu, 4)
V == FRat(2 * pv, 3)
P == PlanePoint(normal, U, V)
Away == pu # 0 \/ pv # 0
R0 == FRat(1, 2)
RS == FRat(5, 2)
NormalIndex == CASE normal = "x" -> 1 [] normal = "y" -> 2 [] normal = "z" -> 3
Tol == FTiny(1, 18)
Inside == P[NormalIndex] = FZero /\ InPlane(normal, P) = <<U, V>>
Radius == FNear(Norm(P), Len2(<<U, V>>), Tol)
ZDip == <<[l |-> 1, m |-> 0, g |-> <<FOne, FZero>>]>>
YDip == <<[l |-> 1, m |-> 1, g |-> <<FZero, FOne>>]>>
XDip == <<[l |-> 1, m |-> 1, g |-> <<FOne, FZero>>]>>
(* away from the axis of polar angles *)
OffAxis == P[1] # FZero \/ P[2] # FZero
(* mirror planes: the dipole along an axis of the plane has no component along the normal *)
Mirror == Away /\ OffAxis =>
  /\ normal \in {"x", "y"} => FNear(VectorAt(ZDip, P, R0, RS)[NormalIndex], FZero, Tol)
  /\ normal \in {"x", "z"} => FNear(VectorAt(YDip, P, R0, RS)[NormalIndex], FZero, Tol)
  /\ normal \in {"y", "z"} => FNear(VectorAt(XDip, P, R0, RS)[NormalIndex], FZero, Tol)
(* turning the star by a quarter about z takes the x dipole to the y dipole *)
Turned == Away /\ OffAxis =>
  LET q == <<FNeg(P[2]), P[1], P[3]>>
      a == VectorAt(XDip, P, R0, RS)
      b == VectorAt(YDip, q, R0, RS)
  IN FNear(b[1], FNeg(a[2]), Tol) /\ FNear(b[2], a[1], Tol) /\ FNear(b[3], a[3], Tol)
(* no field inside, continuous magnitude of the radial part, purely radial at and beyond the source surface *)
Zones == Away /\ OffAxis =>
  LET w == FieldAt(ZDip \o YDip, P, R0, RS)
  IN /\ FLt(Norm(P), R0) => w = <<FZero, FZero, FZero>>
     /\ FLe(RS, Norm(P)) => FNear(w[2], FZero, Tol) /\ FNear(w[3], FZero, Tol)
Angles == Away => Along(<<U, V>>, <<U, V>>, 999999, 1000000) /\ ~Along(<<U, V>>, <<FNeg(V), U>>, 1, 100)
                  /\ ~Along(<<U, V>>, <<FNeg(U), FNeg(V)>>, 1, 100)
=============================================================================
