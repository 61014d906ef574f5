------------------------------ MODULE RotateTrace ------------------------------
(***************************************************************************)
(* Judges histories of rotations and foldings (C16): sets[1] is the first  *)
(* set, step i leads from sets[i] to sets[i+1]; a step is a rotation       *)
(* (quaternion or Euler angles) or a folding.  pts: points to compare at.  *)
(***************************************************************************)
EXTENDS Rotate, CaseRun
Valid(cs) == \A i \in 1..Len(cs) : cs[i].l >= 0 /\ AbsM(cs[i].m) <= cs[i].l
Width(cs) == IF cs = <<>> THEN 0 ELSE Len(cs[1].v)
(* (the Wigner elements of the library the code uses lose digits above degree 20: 1e-9 at degree 30) *)
Tol(s, n) == FAdd(FTiny(1, 22), FMul(s, FMulInt(FTiny(1, 12), 5 * (n + 1) * (IF n > 16 THEN 2^(n - 16) ELSE 1))))
RotClauses(a, b, mat, pts) ==
  LET L == RTop(a)
      W == Width(a)
      back == Transposed(mat)
      t1 == [i \in 1..Len(pts) |-> Tables(L, DirOf(pts[i]))]
      t2 == [i \in 1..Len(pts) |-> Tables(L, DirOf(Apply(back, pts[i])))]
  IN (IF Valid(b) /\ RTop(b) <= L /\ \A i \in 1..Len(b) : Len(b[i].v) = W THEN {} ELSE {"pairs-or-width"})
     \cup (IF \E n \in 0..L, k \in 1..W :
               LET x == OfDegree(a, n)
                   y == OfDegree(b, n)
                   s == SizeOf(x, k)
               IN \E i \in 1..Len(pts) : ~XNear(SumAt(x, k, t1[i]), SumAt(y, k, t2[i]), Tol(s, n))
           THEN {"field-not-rotated"} ELSE {})
     \cup (IF \E n \in 0..L, k \in 1..W :
               LET x == OfDegree(a, n)
                   s == NormOf(x, k)
               IN ~FNear(s, NormOf(OfDegree(b, n), k), Tol(s, n))
           THEN {"norm-changed"} ELSE {})
OfPair(cs, p) == SelectSeq(cs, LAMBDA e : e.l = p[1] /\ AbsM(e.m) = p[2])
FoldClauses(a, b, pts) ==
  LET L == RTop(a)
      w == FoldedSet(a)
      t == [i \in 1..Len(pts) |-> Tables(L, DirOf(pts[i]))]
      both == {<<a[i].l, AbsM(a[i].m)>> : i \in 1..Len(a)}
  IN (IF {<<b[i].l, b[i].m>> : i \in 1..Len(b)} = {<<w[i].l, w[i].m>> : i \in 1..Len(w)} /\ Len(b) = Len(w)
         /\ \A i \in 1..Len(b) : Len(b[i].v) = 1 THEN {} ELSE {"pairs-after-folding"})
     \cup (IF \E p \in both :        \* the real part of every degree and order (of both signs) on its own
               LET x == OfPair(a, p)
                   y == OfPair(b, p)
                   s == SizeOf(x, 1)
               IN \E i \in 1..Len(pts) : ~FNear(SumAt(x, 1, t[i])[1], SumAt(y, 1, t[i])[1], Tol(s, p[1]))
           THEN {"real-part-changed"} ELSE {})
Clauses(c, i) ==
  LET st == c.steps[i]
      a == c.sets[i]
      b == c.sets[i + 1]
  IN CASE st.kind = "quat" -> RotClauses(a, b, QMat(st.p), c.pts)
       [] st.kind = "euler" -> RotClauses(a, b, EulerMat(st.p), c.pts)
       [] st.kind = "fold" -> FoldClauses(a, b, c.pts)
Chk(c) == UNION {Clauses(c, i) : i \in 1..Len(c.steps)}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
