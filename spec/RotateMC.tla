------------------------------- MODULE RotateMC -------------------------------
(***************************************************************************)
(* A rotation built up from elementary turns: it stays a rotation, agrees  *)
(* with its quaternion, leaves the kernel sum_m conj Y_lm(p) Y_lm(q) of    *)
(* every degree alone (so a unitary matrix per degree moves the harmonics), *)
(* and folding keeps the real part everywhere and repeats to itself.       *)
(***************************************************************************)
EXTENDS Rotate
CONSTANTS Depth, L
VARIABLES turns, quat, mat
rvars == <<turns, quat, mat>>
Gens == <<"z30", "y90", "z180", "y45", "x120">>
GenQ(g) == LET ang == CASE g = "z30" -> FInt(15) [] g = "y90" -> FInt(45) [] g = "z180" -> FInt(90) [] g = "y45" -> FRat(45, 2) [] g = "x120" -> FInt(60)
               ax == CASE g \in {"z30", "z180"} -> 4 [] g \in {"y90", "y45"} -> 3 [] g = "x120" -> 2
               e == FCosSin(Deg(ang))
           IN [i \in 1..4 |-> IF i = 1 THEN e[1] ELSE IF i = ax THEN e[2] ELSE FZero]
QMul(p, q) ==
  << FSub(FMul(p[1], q[1]), FAdd(FMul(p[2], q[2]), FAdd(FMul(p[3], q[3]), FMul(p[4], q[4])))),
     FAdd(FAdd(FMul(p[1], q[2]), FMul(p[2], q[1])), FSub(FMul(p[3], q[4]), FMul(p[4], q[3]))),
     FAdd(FSub(FMul(p[1], q[3]), FMul(p[2], q[4])), FAdd(FMul(p[3], q[1]), FMul(p[4], q[2]))),
     FAdd(FAdd(FMul(p[1], q[4]), FMul(p[2], q[3])), FSub(FMul(p[4], q[1]), FMul(p[3], q[2]))) >>
Init == turns = <<>> /\ quat = <<FOne, FZero, FZero, FZero>> /\ mat = Identity
Next == /\ Len(turns) < Depth
        /\ \E k \in 1..Len(Gens) : /\ turns' = Append(turns, Gens[k])
                                  /\ quat' = QMul(quat, GenQ(Gens[k]))
                                  /\ mat' = Product(mat, QMat(GenQ(Gens[k])))
Spec == Init /\ [][Next]_rvars
Tol == FTiny(1, 18)
IsRotation == MNear(Product(mat, Transposed(mat)), Identity, Tol) /\ FNear(Det(mat), FOne, Tol)
QuatAgrees == MNear(QMat(quat), mat, Tol)
Euler == MNear(EulerMat(<<FInt(30), FInt(90), FInt(45)>>), Product(QMat(GenQ("z30")), Product(QMat(GenQ("y90")), ZMat(Deg(FInt(45))))), Tol)
A == <<FRat(1, 3), FRat(-2, 3), FRat(2, 3)>>
B == <<FRat(6, 7), FRat(2, 7), FRat(-3, 7)>>
Kernel(n, p, q) ==
  LET s == Tables(n, DirOf(p))
      t == Tables(n, DirOf(q))
  IN FoldLeft(LAMBDA x, i : XAdd(x, XMul(XConj(YOf(s.tab, s.pt, n, i - 1 - n)), YOf(t.tab, t.pt, n, i - 1 - n))), CZ, Seq0(2 * n + 1))
KernelInvariant == \A n \in 0..L : XNear(Kernel(n, Apply(mat, A), Apply(mat, B)), Kernel(n, A, B), Tol)
(* a set with entries of both signs, built from the turns taken *)
Cs == FoldLeft(LAMBDA r, k : Append(r, [l |-> 2, m |-> k - 3, v |-> << <<FRat(k, 3), FInt(Len(turns) - k)>> >>]), <<>>, Seq0(5))
      \o << [l |-> 3, m |-> -3, v |-> << <<FOne, FRat(1, 2)>> >>], [l |-> 3, m |-> 1, v |-> << <<FInt(2), FOne>> >>] >>
FoldKeepsReal == LET t == Tables(3, DirOf(Apply(mat, A)))
                 IN FNear(SumAt(Cs, 1, t)[1], SumAt(FoldedSet(Cs), 1, t)[1], Tol)
FoldOnce == FoldedSet(FoldedSet(Cs)) = FoldedSet(Cs)
=============================================================================
