--------------------------------- MODULE Stats ---------------------------------
(***************************************************************************)
(* Area-weighted statistics of the magnitude of a quantity given on the    *)
(* facets of a sphere (C25): areas and values, sequences of equal length.  *)
(***************************************************************************)
EXTENDS Grid, Zdi
FourPi == FMulInt(FPi, 4)
Weighted(areas, values, Op(_)) ==
  FDiv(FoldLeft(LAMBDA x, k : FAdd(x, FMul(areas[k], Op(FAbs(values[k])))), FZero, Seq0(Len(areas))), FourPi)
Mean(areas, values) == Weighted(areas, values, LAMBDA x : x)
MeanSquare(areas, values) == Weighted(areas, values, FSq)
Variance(areas, values) == LET mu == Mean(areas, values) IN Weighted(areas, values, LAMBDA x : FSq(FSub(x, mu)))
Largest(values) == FoldLeft(LAMBDA x, v : FMax(x, FAbs(v)), FZero, values)

(* the quantities described, by name *)
Quantities == {"radial-poloidal", "radial-toroidal", "radial", "polar-poloidal", "polar-toroidal", "polar",
               "azimuthal-poloidal", "azimuthal-toroidal", "azimuthal", "field strength"}
ValueOf(q, p) ==
  CASE q = "radial-poloidal" -> p.rp [] q = "radial-toroidal" -> FZero [] q = "radial" -> Radial(p)
    [] q = "polar-poloidal" -> p.pp [] q = "polar-toroidal" -> p.pt [] q = "polar" -> Polar(p)
    [] q = "azimuthal-poloidal" -> p.ap [] q = "azimuthal-toroidal" -> p.at [] q = "azimuthal" -> Azimuthal(p)
    [] q = "field strength" -> Strength(p)
Cells(g) == FoldLeft(LAMBDA r, i : FoldLeft(LAMBDA q, j : Append(q, <<i, j>>), r, Seq0(Len(g.ts) - 1)), <<>>, Seq0(Len(g.ps) - 1))
Over(s, Op(_)) == FoldLeft(LAMBDA r, x : Append(r, Op(x)), <<>>, s)
=============================================================================
