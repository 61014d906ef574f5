---------------------------------- MODULE Zdi ----------------------------------
(***************************************************************************)
(* The ZDI surface field of a list of coefficients [l, m, a, b, g] with    *)
(* complex a (alpha), b (beta), g (gamma), m >= 0 (RadialOf: any m).       *)
(***************************************************************************)
EXTENDS Harm

TopL(cs) == FoldLeft(LAMBDA x, c : IF c.l > x THEN c.l ELSE x, 0, cs)
TopM(cs) == FoldLeft(LAMBDA x, c : IF AbsM(c.m) > x THEN AbsM(c.m) ELSE x, 0, cs)

ZeroParts == [rp |-> FZero, pp |-> FZero, pt |-> FZero, ap |-> FZero, at |-> FZero]
(* one coefficient's contribution *)
Term(c, tab, pt, s, cot) ==
  LET e == Phase(pt, c.m)
      n == N(tab, c.l, c.m)
      d == FDivInt(DN(tab, c.l, c.m, cot), c.l + 1)
      q == FDiv(FMulInt(n, c.m), FMulInt(s, c.l + 1))       \* m N / (sin theta (l+1))
      ae == XMul(c.a, e)
      be == XMul(c.b, e)
      ge == XMul(c.g, e)
  IN [rp |-> FMul(n, ae[1]),
      pp |-> FNeg(FMul(d, be[1])),
      pt |-> FNeg(FMul(q, ge[2])),
      ap |-> FMul(q, be[2]),
      at |-> FNeg(FMul(d, ge[1]))]
Parts(cs, dir) ==
  LET L == TopL(cs)
      M == TopM(cs)
      MM == IF M < L THEN M + 1 ELSE M
      tab == NTable(L, MM, dir[1], dir[2])
      pt == PhaseTable(M, <<dir[3], dir[4]>>)
      cot == FDiv(dir[1], dir[2])
  IN FoldLeft(LAMBDA acc, c : LET t == Term(c, tab, pt, dir[2], cot)
                              IN [rp |-> FAdd(acc.rp, t.rp), pp |-> FAdd(acc.pp, t.pp), pt |-> FAdd(acc.pt, t.pt),
                                  ap |-> FAdd(acc.ap, t.ap), at |-> FAdd(acc.at, t.at)],
              ZeroParts, cs)
Radial(p) == p.rp
(* the radial field again, as the real part of a sum of harmonics: for orders of either sign *)
RadialOf(cs, dir) ==
  LET tab == NTable(TopL(cs), TopM(cs), dir[1], dir[2])
      pt == PhaseTable(TopM(cs), <<dir[3], dir[4]>>)
  IN FoldLeft(LAMBDA x, c : FAdd(x, XMul(c.a, YOf(tab, pt, c.l, c.m))[1]), FZero, cs)
Polar(p) == FAdd(p.pp, p.pt)
Azimuthal(p) == FAdd(p.ap, p.at)
Strength(p) == FSqrt(FAdd(FSq(Radial(p)), FAdd(FSq(Polar(p)), FSq(Azimuthal(p)))))
(* components along x, y, z of the vector with spherical components (r, p, a) *)
ToXyz(r, p, a, dir) ==
  LET h == FAdd(FMul(r, dir[2]), FMul(p, dir[1]))          \* away from the axis
  IN << FSub(FMul(h, dir[3]), FMul(a, dir[4])),
        FAdd(FMul(h, dir[4]), FMul(a, dir[3])),
        FSub(FMul(r, dir[1]), FMul(p, dir[2])) >>

(* selections *)
KeepRange(cs, lo, hi, mo, mh) == SelectSeq(cs, LAMBDA c : c.l >= lo /\ c.l <= hi /\ c.m >= mo /\ c.m <= mh)
OnlyPoloidal(cs) == FoldLeft(LAMBDA r, c : Append(r, [c EXCEPT !.g = CZ]), <<>>, cs)
OnlyToroidal(cs) == FoldLeft(LAMBDA r, c : Append(r, [c EXCEPT !.a = CZ, !.b = CZ]), <<>>, cs)

(* size of the numbers involved, for tolerances *)
Magnitude(cs) == FoldLeft(LAMBDA x, c : FAdd(x, FMulInt(FAdd(XAbs1(c.a), FAdd(XAbs1(c.b), XAbs1(c.g))), c.l + 1)), FZero, cs)
(* floating-point evaluation loses accuracy towards the axis *)
FieldTol(cs, dir) ==
  LET S == Magnitude(cs)
  IN FAdd(FTiny(1, 24), FMul(S, FAdd(FTiny(1, 10), FDiv(FTiny(1, 13), FSq(dir[2])))))
=============================================================================
