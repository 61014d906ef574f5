-------------------------------- MODULE Energy --------------------------------
(***************************************************************************)
(* Energies of ZDI coefficients [l, m, a, b, g], |m| <= l, and their sums. *)
(***************************************************************************)
EXTENDS Harm, TLC

E0(c, z) == IF c.m = 0 THEN FSq(z[1]) ELSE FDivInt(XNorm2(z), 2)
EA(c) == E0(c, c.a)
EW(c, z) == FDivInt(FMulInt(E0(c, z), c.l), c.l + 1)
EB(c) == EW(c, c.b)
EG(c) == EW(c, c.g)
EP(c) == FAdd(EA(c), EB(c))
Total(cs, e(_), p(_)) == FoldLeft(LAMBDA x, c : IF p(c) THEN FAdd(x, e(c)) ELSE x, FZero, cs)
Every(c) == TRUE
Axial(c) == c.m = 0

(* what the report says, by name: <<numerator, denominator>> *)
Pol(cs) == Total(cs, EP, Every)
Tor(cs) == Total(cs, EG, Every)
Tot(cs) == FAdd(Pol(cs), Tor(cs))
LevelNames == 1..15
Named(cs) ==
  LET P == Pol(cs)
      T == Tor(cs)
      A == FAdd(P, T)

      Pl(l) == Total(cs, EP, LAMBDA c : c.l = l)
      Tl(l) == Total(cs, EG, LAMBDA c : c.l = l)
      pre == "magnetogram."
  IN << <<pre \o "total.energy.B2", A, FOne>>,
        <<pre \o "radial.energy.fraction", Total(cs, EA, Every), A>>,
        <<pre \o "poloidal.energy.fraction", P, A>>,
        <<pre \o "toroidal.energy.fraction", T, A>>,
        <<pre \o "total.energy.dipole.fraction", Pl(1), P>>,
        <<pre \o "total.energy.quadrupole.fraction", Pl(2), P>>,
        <<pre \o "total.energy.octopole.fraction", Pl(3), P>>,
        <<pre \o "total.energy.toroidal.l1.fraction", Tl(1), T>>,
        <<pre \o "total.energy.toroidal.l2.fraction", Tl(2), T>>,
        <<pre \o "total.energy.toroidal.l3.fraction", Tl(3), T>>,
        <<pre \o "total.energy.axisymmetric.fraction", FAdd(Total(cs, EP, Axial), Total(cs, EG, Axial)), A>>,
        <<pre \o "total.energy.radial.axisymmetric.fraction", Total(cs, EA, Axial), P>>,
        <<pre \o "total.energy.poloidal.axisymmetric.fraction", Total(cs, EP, Axial), P>>,
        <<pre \o "total.energy.toroidal.axisymmetric.fraction", Total(cs, EG, Axial), T>>,
        <<pre \o "total.energy.dipole.axisymmetric.fraction", Total(cs, EP, LAMBDA c : c.l = 1 /\ c.m = 0), Pl(1)>> >>
     \o FoldLeft(LAMBDA r, l : r \o << <<pre \o "pol.energy.l" \o ToString(l) \o ".fraction", Pl(l), P>>,
                                       <<pre \o "tor.energy.l" \o ToString(l) \o ".fraction", Tl(l), T>> >>, <<>>, Seq0(15))
ETop(cs) == FoldLeft(LAMBDA x, c : IF c.l > x THEN c.l ELSE x, 0, cs)
(* the matrices: row l (0..L), column L + m (0..2L) *)
At(cs, l, m) == SelectSeq(cs, LAMBDA c : c.l = l /\ c.m = m)
Cell(cs, l, m, e(_)) == LET x == At(cs, l, m) IN IF x = <<>> THEN FZero ELSE e(x[1])
=============================================================================
