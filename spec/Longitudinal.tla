----------------------------- MODULE Longitudinal -----------------------------
(***************************************************************************)
(* The longitudinal field: the mean of the line-of-sight component of a    *)
(* vector field given at the facet centres, each facet weighted with its   *)
(* area times the fraction of it that is seen.                             *)
(* facets: sequence of [n (unit normal), a (area)]; field: vectors.        *)
(***************************************************************************)
EXTENDS Grid
Facets(g) ==
  FoldLeft(LAMBDA r, i : r \o FoldLeft(LAMBDA q, j : Append(q, [n |-> Normal(g, i, j), a |-> FacetArea(g, i, j)]), <<>>, Seq0(Len(g.ts) - 1)),
           <<>>, Seq0(Len(g.ps) - 1))
Weight(f, v) == FMul(f.a, Seen(f.n, v))
SeenArea(facets, v) == FoldLeft(LAMBDA x, f : FAdd(x, Weight(f, v)), FZero, facets)
Sightline(facets, field, v) ==
  FoldLeft(LAMBDA x, k : FAdd(x, FMul(Weight(facets[k], v), VDot(field[k], v))), FZero, Seq0(Len(facets)))
LongField(facets, field, v) == FDiv(Sightline(facets, field, v), SeenArea(facets, v))
FullTurn(n) == Linear(FZero, FTwoPi, n)
=============================================================================
