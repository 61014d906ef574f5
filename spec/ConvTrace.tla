------------------------------- MODULE ConvTrace -------------------------------
(***************************************************************************)
(* Judges conversions between the ZDI and the PFSS description of a field  *)
(* (C09, C10).  Points are at the stellar surface; the PFSS field is       *)
(* observed at the reversed azimuth.                                       *)
(***************************************************************************)
EXTENDS Convert, Zdi, Pfss, CaseRun
RZero == FZero
ROne == FOne

KeySet(sn) == {sn.k[i] : i \in 1..Len(sn.k)}
Idx(sn, key) == CHOOSE i \in 1..Len(sn.k) : sn.k[i] = key
AsSet(sn) == [d |-> sn.d, c |-> [key \in KeySet(sn) |-> sn.v[Idx(sn, key)]]]
Close(u, v) == \A j \in 1..2 : FNear(u[j], v[j], FAdd(FTiny(1, 22), FMul(XAbs1(u), FTiny(1, 12))))
AsZdi(sn) == FoldLeft(LAMBDA r, i : Append(r, [l |-> sn.k[i][1], m |-> sn.k[i][2], a |-> sn.v[i][1],
                                               b |-> IF Len(sn.d) > 1 THEN sn.v[i][2] ELSE CZ,
                                               g |-> IF Len(sn.d) > 2 THEN sn.v[i][3] ELSE CZ]), <<>>, Seq0(Len(sn.k)))
AsPfss(sn) == FoldLeft(LAMBDA r, i : Append(r, [l |-> sn.k[i][1], m |-> sn.k[i][2], g |-> sn.v[i][1]]), <<>>, Seq0(Len(sn.k)))
Back(d) == <<d[1], d[2], d[3], FNeg(d[4])>>

(* ---- C09: case.zdi -> case.pfss -> case.back ---- *)
ForwardClauses(c) ==
  LET ks == KeySet(c.zdi)
      want == ZdiToPfss(AsSet(c.zdi))
  IN (IF KeySet(c.pfss) # ks \/ Len(c.pfss.d) # 1 THEN {"pairs"}
      ELSE IF \E k \in ks : k[2] >= 0 /\ ~Close(want.c[k][1], c.pfss.v[Idx(c.pfss, k)][1]) THEN {"factor"} ELSE {})
     \cup (IF KeySet(c.back) # ks THEN {"pairs-back"}
           ELSE IF \E k \in ks : k[2] >= 0 /\ ~Close(c.zdi.v[Idx(c.zdi, k)][1], c.back.v[Idx(c.back, k)][1]) THEN {"round-trip"} ELSE {})
RadialClauses(c, k) ==
  LET d == Direction(c.pts[k][1], c.pts[k][2])
      cs == AsZdi(c.zdi)
      tol == FMulInt(FieldTol(cs, d), 4)
      want == Parts(cs, d).rp
      wp == PfssField(AsPfss(c.pfss), Back(d), FOne, FOne, DefaultRss)[1]
  IN (IF ~FNear(want, c.zr[k], tol) THEN {"zdi-radial-field"} ELSE {})
     \cup (IF ~FNear(want, c.pr[k], tol) THEN {"pfss-radial-field"} ELSE {})
     \cup (IF ~FNear(want, wp, tol) THEN {"coefficients-of-another-field"} ELSE {})
(* ---- C10: case.pfss -> case.zdi ---- *)
VectorClauses(c, k) ==
  LET d == Direction(c.pts[k][1], c.pts[k][2])
      cp == AsPfss(c.pfss)
      cz == AsZdi(c.zdi)
      tol == FMulInt(FAdd(PTol(cp, d), FieldTol(cz, d)), 4)
      w == PfssField(cp, Back(d), FOne, FOne, DefaultRss)
      want == <<w[1], w[2], FNeg(w[3])>>
      q == Parts(cz, d)
      f == <<Radial(q), Polar(q), Azimuthal(q)>>
      names == <<"radial", "polar", "azimuthal">>
  IN UNION {(IF ~FNear(want[i], c.zf[k][i], tol) THEN {"zdi-" \o names[i]} ELSE {})
            \cup (IF ~FNear(IF i = 3 THEN FNeg(want[i]) ELSE want[i], c.pf[k][i], tol) THEN {"pfss-" \o names[i]} ELSE {})
            \cup (IF ~FNear(want[i], f[i], tol) THEN {"coefficients-" \o names[i]} ELSE {}) : i \in 1..3}
ReverseClauses(c) ==
  (IF KeySet(c.zdi) # KeySet(c.pfss) \/ Len(c.zdi.d) # 3 THEN {"pairs"} ELSE {})
  \cup (IF \E i \in 1..Len(c.zdi.k) : Len(c.zdi.v[i]) # 3 \/ c.zdi.v[i][3] # CZ THEN {"toroidal-not-zero"} ELSE {})
Chk(c) == CASE c.op = "forward" -> ForwardClauses(c) \cup UNION {RadialClauses(c, k) : k \in 1..Len(c.pts)}
            [] c.op = "reverse" -> ReverseClauses(c) \cup UNION {VectorClauses(c, k) : k \in 1..Len(c.pts)}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
