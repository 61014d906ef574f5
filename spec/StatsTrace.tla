------------------------------ MODULE StatsTrace ------------------------------
(* Judges the numerical description of a magnetogram (C25): grid ts, ps; coefs; out:    *)
(* name -> mean, rms, std, max as reported.                                              *)
EXTENDS Stats, CaseRun
Chk(c) ==
  LET g == [ts |-> c.ts, ps |-> c.ps]
      cells == Cells(g)
      areas == Over(cells, LAMBDA x : FacetArea(g, x[1], x[2]))
      parts == Over(cells, LAMBDA x : Parts(c.coefs, CentreDir(g, x[1], x[2])))
      tol == FoldLeft(LAMBDA y, x : FMax(y, FieldTol(c.coefs, CentreDir(g, x[1], x[2]))), FTiny(1, 20), cells)
  IN UNION {LET o == c.out[q]
                vals == Over(parts, LAMBDA p : ValueOf(q, p))
                top == Largest(vals)
                wide == FMulInt(FMul(tol, FAdd(FOne, top)), 8)
            IN (IF FNear(o.mean, Mean(areas, vals), FMulInt(tol, 4)) THEN {} ELSE {"mean " \o q})
               \cup (IF FNear(o.max, top, FMulInt(tol, 4)) THEN {} ELSE {"max " \o q})
               \cup (IF FNear(FSq(o.rms), MeanSquare(areas, vals), wide) /\ ~FLt(o.rms, FZero) THEN {} ELSE {"rms " \o q})
               \cup (IF FNear(FSq(o.std), Variance(areas, vals), wide) /\ ~FLt(o.std, FZero) THEN {} ELSE {"std " \o q})
            : q \in Quantities \cap DOMAIN c.out}
     \cup {"missing " \o q : q \in Quantities \ DOMAIN c.out}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
