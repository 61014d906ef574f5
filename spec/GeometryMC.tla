------------------------------ MODULE GeometryMC ------------------------------
(***************************************************************************)
(* A point walks over a lattice; its descriptions agree, the two matrices  *)
(* are rotations and mutually inverse, the unit vectors are the directions *)
(* of growth, and patch areas add up under splitting.                      *)
(***************************************************************************)
EXTENDS Geometry
CONSTANT Reach
VARIABLES px, py, pz
gvars == <<px, py, pz>>
Init == px = 1 /\ py = 0 /\ pz = 0
Moved(n, k) == {n2 \in {n - 1, n + 1} : n2 >= -k /\ n2 <= k}
Next == \/ px' \in Moved(px, Reach) /\ UNCHANGED <<py, pz>>
        \/ py' \in Moved(py, Reach) /\ UNCHANGED <<px, pz>>
        \/ pz' \in Moved(pz, Reach) /\ UNCHANGED <<px, py>>
Spec == Init /\ [][Next]_gvars
Origin == px = 0 /\ py = 0 /\ pz = 0
P == <<FInt(px), FInt(py), FInt(pz)>>
Tol == FTiny(1, 20)
RoundTrip == ~Origin => VNear(ToRect(Norm(P), DirOf(P)), P, Tol)
Rotation == ~Origin => /\ MNear(Product(Rows(DirOf(P)), Columns(DirOf(P))), Identity, Tol)
                       /\ MNear(Product(Columns(DirOf(P)), Rows(DirOf(P))), Identity, Tol)
                       /\ FNear(Det(Rows(DirOf(P))), FOne, Tol)
H == FTiny(1, 6)
Quot(v, w) == [i \in 1..3 |-> FDiv(FSub(v[i], w[i]), FMulInt(H, 2))]
Growth ==
  LET t == FDivInt(FMulInt(FPi, px + Reach + 1), 2 * Reach + 2)
      p == FDivInt(FMulInt(FPi, py), Reach)
      d == Direction(t, p)
  IN /\ VNear(Quot(UnitOf(Direction(FAdd(t, H), p)), UnitOf(Direction(FSub(t, H), p))), EPol(d), FTiny(1, 10))
     /\ VNear(Quot(UnitOf(Direction(t, FAdd(p, H))), UnitOf(Direction(t, FSub(p, H)))),
              [i \in 1..3 |-> FMul(d[2], EAzi(d)[i])], FTiny(1, 10))
(* splitting a patch *)
Patches ==
  LET t0 == FDivInt(FMulInt(FPi, px + Reach), 4 * Reach)
      t1 == FDivInt(FMulInt(FPi, 3 * Reach + py), 4 * Reach)
      tm == Mid(t0, t1)
      p1 == FRat(pz + Reach + 1, 2)
      A(x, y, z, w) == PatchArea(x, y, z, w)
  IN /\ FNear(A(t0, t1, FZero, p1), FAdd(A(t0, tm, FZero, p1), A(tm, t1, FZero, p1)), Tol)
     /\ FNear(A(t0, t1, FZero, p1), FAdd(A(t0, t1, FZero, FRat(1, 3)), A(t0, t1, FRat(1, 3), p1)), Tol)
     /\ FNear(A(FZero, FPi, FZero, FTwoPi), FMulInt(FPi, 4), Tol)
View == ~Origin => LET n == UnitOf(DirOf(P))
                       v == <<FInt(2), FInt(-1), FInt(3)>>
                       w == [i \in 1..3 |-> FNeg(v[i])]
                   IN /\ FNear(FSub(Seen(n, v), Seen(n, w)), FDiv(VDot(n, v), Norm(v)), Tol)
                      /\ FLe(Seen(n, v), FAdd(FOne, Tol)) /\ (Seen(n, v) = FZero \/ Seen(n, w) = FZero)
                      /\ FNear(Seen(n, n), FOne, Tol)
=============================================================================
