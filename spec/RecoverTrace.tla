------------------------------ MODULE RecoverTrace ------------------------------
(***************************************************************************)
(* Judges conversions of sampled fields to coefficients (C19).  op         *)
(*   recover: coefs sampled on a grid with nt polar steps, asked up to     *)
(*            degree top; rec = what came back                             *)
(*   linear:  recs of two fields and of x times one plus y times the other *)
(*   single:  recs: all pairs together, then other selections of pairs     *)
(*   sums:    any samples (pts, na times nt of them): each coefficient is   *)
(*            the sum of their projections (area = the given one, or the   *)
(*            product of the steps)                                        *)
(***************************************************************************)
EXTENDS Recover, CaseRun
AllPairs(top) == FoldLeft(LAMBDA r, n : r \o FoldLeft(LAMBDA s, o : Append(s, <<n - 1, o - 1>>), <<>>, Seq0(n)), <<>>, Seq0(top + 1))
Has(r, p) == \E i \in 1..Len(r.k) : r.k[i] = p
Of(r, p) == r.v[CHOOSE i \in 1..Len(r.k) : r.k[i] = p]
Truth(cs, p) == LET s == SelectSeq(cs, LAMBDA c : <<c.l, c.m>> = p) IN IF s = <<>> THEN <<CZ, CZ, CZ>> ELSE <<s[1].a, s[1].b, s[1].g>>
Comps == <<"alpha", "beta", "gamma">>
PairSet(r) == {r.k[i] : i \in 1..Len(r.k)}
Exactly(r, ks) == PairSet(r) = ks /\ Len(r.k) = Cardinality(ks) /\ \A i \in 1..Len(r.v) : Len(r.v[i]) = 3
SameUpTo(p, k, x, y, tol) == (p[1] = 0 /\ k > 1) \/ (FNear(x[1], y[1], tol) /\ (p[2] = 0 \/ FNear(x[2], y[2], tol)))
RecoverClauses(c) ==
  LET ks == AllPairs(c.top)
      tol == GridTol(FDivInt(FPi, c.nt), FoldLeft(LAMBDA x, d : IF d.l > x THEN d.l ELSE x, c.top, c.coefs), SizeAll(c.coefs))
  IN IF ~Exactly(c.rec, {ks[i] : i \in 1..Len(ks)}) THEN {"pairs"}
     ELSE {Comps[k] \o "-not-recovered" : k \in {q \in 1..3 : \E i \in 1..Len(ks) : ~SameUpTo(ks[i], q, Truth(c.coefs, ks[i])[q], Of(c.rec, ks[i])[q], tol)}}
LinearClauses(c) ==
  LET a == c.recs[1] b == c.recs[2] s == c.recs[3]
      size(r) == FoldLeft(LAMBDA x, v : FAdd(x, FAdd(XAbs1(v[1]), FAdd(XAbs1(v[2]), XAbs1(v[3])))), FZero, r.v)
      tol == FAdd(FTiny(1, 22), FMul(FAdd(FMul(FAbs(c.x), size(a)), FMul(FAbs(c.y), size(b))), FTiny(1, 14)))
      W == FAdd(tol, FMul(c.size, FTiny(1, 13)))
  IN IF PairSet(a) # PairSet(s) \/ PairSet(b) # PairSet(s) THEN {"pairs"}
     ELSE IF \A i \in 1..Len(s.k) : \A k \in 1..3 :
               XNear(s.v[i][k], XAdd(XScale(c.x, Of(a, s.k[i])[k]), XScale(c.y, Of(b, s.k[i])[k])), W) THEN {} ELSE {"not-linear"}
SingleClauses(c) ==
  LET a == c.recs[1]
      tol == FAdd(FTiny(1, 22), FMul(c.size, FTiny(1, 13)))
  IN UNION {IF ~Exactly(c.recs[j], {c.asked[j][i] : i \in 1..Len(c.asked[j])}) THEN {"pairs"}
            ELSE IF \A i \in 1..Len(c.recs[j].k) : \A k \in 1..3 : XNear(c.recs[j].v[i][k], Of(a, c.recs[j].k[i])[k], tol)
            THEN {} ELSE {"one-by-one-differs"} : j \in 1..Len(c.recs)}
StepsOf(c) == LET f == c.pts[1] l == c.pts[Len(c.pts)]
              IN FMul(FDivInt(FSub(l[1], f[1]), c.nt - 1), FDivInt(FSub(l[2], f[2]), c.na - 1))
SumClauses(c) ==
  LET area == IF c.given THEN c.area ELSE StepsOf(c)
      ss == FoldLeft(LAMBDA r, k : LET d == Direction(c.pts[k][1], c.pts[k][2])
                                   IN Append(r, [d |-> d, w |-> FMul(d[2], area), r |-> c.pts[k][3], p |-> c.pts[k][4], a |-> c.pts[k][5]]),
                     <<>>, Seq0(Len(c.pts)))
      tol == FAdd(FTiny(1, 22), FMul(FMul(FAbs(area), c.size), FTiny(1, 12)))
  IN IF ~Exactly(c.rec, {c.asked[1][i] : i \in 1..Len(c.asked[1])}) THEN {"pairs"}
     ELSE LET bad == UNION {LET x == Project(ss, c.rec.k[i][1], c.rec.k[i][2])
                            IN {k \in 1..3 : ~(c.rec.k[i][1] = 0 /\ k > 1) /\ ~XNear(c.rec.v[i][k], x[k], FMulInt(tol, c.rec.k[i][1] + 1))} : i \in 1..Len(c.rec.k)}
          IN {Comps[k] \o "-not-the-sum" : k \in bad}
Chk(c) == CASE c.op = "recover" -> RecoverClauses(c)
            [] c.op = "linear" -> LinearClauses(c)
            [] c.op = "sums" -> SumClauses(c)
            [] c.op = "single" -> SingleClauses(c)
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
