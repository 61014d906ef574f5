------------------------------- MODULE LongTrace -------------------------------
(***************************************************************************)
(* Judges longitudinal field curves (C18): ts, ps the grid corners; field  *)
(* the Cartesian field at the facet centres; calls: polar angle, azimuths  *)
(* asked for (or default), values returned.                                *)
(***************************************************************************)
EXTENDS Longitudinal, CaseRun
CallClauses(c, k, facets, tol) ==
  LET q == c.calls[k]
      az == IF q.default THEN FullTurn(Len(c.ps)) ELSE q.azi
  IN IF q.raised                                   \* no mean where no facet is seen; everywhere else there is one
     THEN IF \A j \in 1..Len(az) : FLt(FTiny(1, 4), SeenArea(facets, UnitOf(Direction(q.pol, az[j])))) THEN {"no-answer"} ELSE {}
     ELSE IF Len(az) # Len(q.out) THEN {"number-of-values"}
     ELSE {IF q.default THEN "default-list" ELSE "weighted-mean" : i \in
            {j \in 1..Len(az) : LET v == UnitOf(Direction(q.pol, az[j]))
                                IN /\ FLt(FTiny(1, 4), SeenArea(facets, v))
                                   /\ ~FNear(FMul(LongField(facets, c.field, v), SeenArea(facets, v)),
                                             FMul(q.out[j], SeenArea(facets, v)),
                                             IF q.single THEN FMulInt(tol, 1000000) ELSE tol)}}
          \cup (IF q.shown = <<>> \/ (Len(q.shown) = Len(az) /\ \A j \in 1..Len(az) : FNear(q.shown[j], az[j], FTiny(1, 11)))
                THEN {} ELSE {"azimuths-returned"})
Chk(c) ==
  LET facets == Facets([ts |-> c.ts, ps |-> c.ps])
      big == FoldLeft(LAMBDA x, v : FMax(x, FAdd(FAbs(v[1]), FAdd(FAbs(v[2]), FAbs(v[3])))), FZero, c.field)
      tol == FAdd(FTiny(1, 20), FMul(big, FTiny(1, 11)))
  IN UNION {CallClauses(c, k, facets, tol) : k \in 1..Len(c.calls)}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
