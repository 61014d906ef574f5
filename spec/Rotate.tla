-------------------------------- MODULE Rotate --------------------------------
(***************************************************************************)
(* Rotations and their action on coefficient sets, and folding.  A set is  *)
(* a list of entries [l, m, v] with v the vector of complex components and *)
(* m of either sign.                                                       *)
(***************************************************************************)
EXTENDS Geometry

(* rotation matrix of the quaternion <<w, x, y, z>> of any length *)
QMat(q) ==
  LET n == FAdd(FAdd(FSq(q[1]), FSq(q[2])), FAdd(FSq(q[3]), FSq(q[4])))
      two(a, b) == FDiv(FMulInt(FMul(a, b), 2), n)
      w == q[1] x == q[2] y == q[3] z == q[4]
  IN << <<FSub(FOne, FAdd(two(y, y), two(z, z))), FSub(two(x, y), two(w, z)), FAdd(two(x, z), two(w, y))>>,
        <<FAdd(two(x, y), two(w, z)), FSub(FOne, FAdd(two(x, x), two(z, z))), FSub(two(y, z), two(w, x))>>,
        <<FSub(two(x, z), two(w, y)), FAdd(two(y, z), two(w, x)), FSub(FOne, FAdd(two(x, x), two(y, y)))>> >>
Deg(a) == FDivInt(FMul(FPi, a), 180)
ZMat(a) == LET e == FCosSin(a) IN << <<e[1], FNeg(e[2]), FZero>>, <<e[2], e[1], FZero>>, <<FZero, FZero, FOne>> >>
YMat(a) == LET e == FCosSin(a) IN << <<e[1], FZero, e[2]>>, <<FZero, FOne, FZero>>, <<FNeg(e[2]), FZero, e[1]>> >>
EulerMat(d) == Product(ZMat(Deg(d[1])), Product(YMat(Deg(d[2])), ZMat(Deg(d[3]))))
Transposed(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]

RTop(cs) == FoldLeft(LAMBDA x, c : IF c.l > x THEN c.l ELSE x, 0, cs)
OfDegree(cs, n) == SelectSeq(cs, LAMBDA c : c.l = n)
(* the complex harmonic sum of component k in direction d *)
Tables(n, d) == [tab |-> NTable(n, n, d[1], d[2]), pt |-> PhaseTable(n, <<d[3], d[4]>>)]
SumAt(cs, k, t) == FoldLeft(LAMBDA x, c : XAdd(x, XMul(c.v[k], YOf(t.tab, t.pt, c.l, c.m))), CZ, cs)
NormOf(cs, k) == FoldLeft(LAMBDA x, c : FAdd(x, XNorm2(c.v[k])), FZero, cs)
SizeOf(cs, k) == FoldLeft(LAMBDA x, c : FAdd(x, XAbs1(c.v[k])), FZero, cs)

(* folding: real part of the sum is kept by c(l,m) + (-1)^m conj c(l,-m) at m > 0 *)
ValueAt(cs, n, o) == LET s == SelectSeq(cs, LAMBDA c : c.l = n /\ c.m = o) IN IF s = <<>> THEN CZ ELSE s[1].v[1]
Folded(cs, n, o) ==
  IF o = 0 THEN ValueAt(cs, n, 0)
  ELSE LET c == XConj(ValueAt(cs, n, -o)) IN XAdd(ValueAt(cs, n, o), IF o % 2 = 0 THEN c ELSE XNeg(c))
FoldedSet(cs) ==
  FoldLeft(LAMBDA r, nn : r \o FoldLeft(LAMBDA q, oo : Append(q, [l |-> nn - 1, m |-> oo - 1, v |-> <<Folded(cs, nn - 1, oo - 1)>>]),
                                        <<>>, Seq0(nn)),
           <<>>, Seq0(RTop(cs) + 1))
=============================================================================
