------------------------------- MODULE DrawTrace -------------------------------
(***************************************************************************)
(* Judges magnetogram plots (C24).  The magnetogram is given by coefs, or  *)
(* by the text of the file (from = "text") and its kind.  Field plots:     *)
(* grid [nt, np] or ts, ps; panels: quads [i, j, x0, x1, y0, y1, v] with   *)
(* bounds in degrees, marks (largest and smallest value), name, title.     *)
(***************************************************************************)
EXTENDS Draw, MagFile, Convert, Label, Stats, Energy, CaseRun
RZero == FZero
ROne == FOne
ReadText(lines) ==
  LET step(rd, line) == LET fs == Fields(line)
                        IN IF IsRow(fs) THEN LET r == Row(fs) IN TakeRow(rd, r.l, r.m, r.v) ELSE TakeJunk(rd)
  IN FoldLeft(step, Start, lines)
Part(s, k, n) == IF Width(s) >= n THEN s.c[k][n] ELSE CZ
AsList(s) == FoldLeft(LAMBDA r, k : Append(r, [l |-> k[1], m |-> k[2], a |-> Part(s, k, 1), b |-> Part(s, k, 2), g |-> Part(s, k, 3)]),
                      <<>>, SetToSeq(Keys(s)))
Coefs(c) == IF c.from = "coefs" THEN c.coefs
            ELSE LET s == Outcome(ReadText(c.text)) IN AsList(IF c.kind = "pfss" THEN PfssToZdi(s) ELSE s)
GridOf(c) == IF c.ts = <<>> THEN ByNumber(c.nt, c.np) ELSE [ts |-> c.ts, ps |-> c.ps]
Deg(x) == FDiv(FMulInt(x, 180), FPi)
DegTol == FTiny(1, 9)
PartName(q, term) == CASE term = "" -> q [] term = "poloidal" -> q \o "p" [] term = "toroidal" -> q \o "t"
Quantity(q, p) ==
  CASE q = "r" -> Radial(p) [] q = "p" -> Polar(p) [] q = "a" -> Azimuthal(p) [] q = "strength" -> Strength(p)
    [] q = "rp" -> p.rp [] q = "rt" -> FZero [] q = "pp" -> p.pp [] q = "pt" -> p.pt [] q = "ap" -> p.ap [] q = "at" -> p.at
RECURSIVE Has2(_, _)
Has2(text, what) == Len(text) >= Len(what) /\ (SubSeq(text, 1, Len(what)) = what \/ Has2(Tail(text), what))
MarkClauses(g, cs, q, mark, quads, sign) ==
  LET d == CentreDir(g, mark.i, mark.j)
      a == CentreAngles(g, mark.i, mark.j)
      tol == FMulInt(FieldTol(cs, d), 4)
  IN (IF FNear(mark.x, Deg(a[2]), DegTol) /\ FNear(mark.y, Deg(a[1]), DegTol) THEN {} ELSE {"mark-position"})
     \cup (IF FNear(mark.v, Quantity(q, Parts(cs, d)), tol) THEN {} ELSE {"mark-value"})
     \cup (IF \A k \in 1..Len(quads) : FLe(FMulInt(FSub(quads[k].v, mark.v), sign), tol) THEN {} ELSE {"mark-no-extreme"})
     \cup (IF TexDenotes(mark.text, mark.neg, mark.num, mark.den) THEN {} ELSE {"mark-label"})
     \cup (IF mark.name = NameOf(IF q \in {"rp", "rt"} THEN "r" ELSE IF q \in {"pp", "pt"} THEN "p"
                                 ELSE IF q \in {"ap", "at"} THEN "a" ELSE q) THEN {} ELSE {"mark-name"})
PanelClauses(c, g, cs, q, p) ==
  UNION {LET o == p.quads[k]
             d == CentreDir(g, o.i, o.j)
         IN (IF /\ FNear(o.x0, Deg(g.ps[o.i]), DegTol) /\ FNear(o.x1, Deg(g.ps[o.i + 1]), DegTol)
                /\ FNear(o.y0, Deg(g.ts[o.j]), DegTol) /\ FNear(o.y1, Deg(g.ts[o.j + 1]), DegTol) THEN {} ELSE {"facet-place"})
            \cup (IF FNear(o.v, Quantity(q, Parts(cs, d)), FMulInt(FieldTol(cs, d), 4)) THEN {} ELSE {"facet-value"})
         : k \in 1..Len(p.quads)}
  \cup MarkClauses(g, cs, q, p.max, p.quads, 1) \cup MarkClauses(g, cs, q, p.min, p.quads, -1)
  \cup (IF p.up THEN {} ELSE {"upside-down"})
  \cup (IF p.count = (Len(g.ts) - 1) * (Len(g.ps) - 1) THEN {} ELSE {"number-of-facets"})
  \cup (IF ~p.titled \/ Has2(p.title, WordOf(IF q \in {"rp", "rt"} THEN "r" ELSE IF q \in {"pp", "pt"} THEN "p"
                                 ELSE IF q \in {"ap", "at"} THEN "a" ELSE q)) THEN {} ELSE {"title"})
  \cup (IF p.mean = <<>> THEN {}
        ELSE LET cells == Cells(g)
                 areas == Over(cells, LAMBDA x : FacetArea(g, x[1], x[2]))
                 vals == Over(cells, LAMBDA x : Quantity(q, Parts(cs, CentreDir(g, x[1], x[2]))))
                 mu == Mean(areas, vals)
             IN IF FNear(mu, p.mean, FAdd(FMul(FTiny(6, 3), mu), FTiny(1, 11))) THEN {} ELSE {"mean-stated"})
FieldClauses(c) ==
  LET want == IF c.plot = "one" THEN <<c.q>> ELSE Panels(c.plot)
      g == GridOf(c)
      cs == Coefs(c)
  IN IF Len(c.panels) # Len(want) THEN {"number-of-panels"}
     ELSE UNION {PanelClauses(c, g, cs, IF c.term = "" THEN want[k] ELSE PartName(want[k], c.term), c.panels[k]) : k \in 1..Len(want)}
          \cup (IF \A k \in 1..Len(want) : c.panels[k].max.v \in {c.bar[j] : j \in 1..Len(c.bar)}
                                           /\ c.panels[k].min.v \in {c.bar[j] : j \in 1..Len(c.bar)}
                THEN {} ELSE {"colour-bar-marks"})
          \cup (IF Len(c.scales) = Len(want) + 1 /\ \A k \in 1..Len(c.scales) : c.scales[k] = c.scales[1] THEN {} ELSE {"colours-differ"})
          \cup (IF \A k \in 1..Len(c.scales) : /\ (c.cmap = "" \/ c.scales[k].cmap = c.cmap)
                                             /\ (c.sym # "yes" \/ c.scales[k].lo = FNeg(c.scales[k].hi)) THEN {} ELSE {"colours-asked"})
          \cup (IF \A k \in 1..Len(c.panels), j \in 1..Len(c.scales) :
                     FLe(c.scales[j].lo, c.panels[k].min.v) /\ FLe(c.panels[k].max.v, c.scales[j].hi) THEN {} ELSE {"off-the-scale"})
(* ---- energies ---- *)
Fine(a, b, s) == FNear(a, b, FAdd(FTiny(1, 18), FAdd(FMul(s, FTiny(1, 12)), FMul(FAbs(a), FTiny(1, 10)))))
SizeOf(cs) == FoldLeft(LAMBDA x, c : FAdd(x, FAdd(XNorm2(c.a), FAdd(XNorm2(c.b), XNorm2(c.g)))), FZero, cs)
KindEnergy(x, t) == CASE t = "total" -> FAdd(EP(x), EG(x)) [] t = "radial" -> EA(x) [] t = "poloidal" -> EP(x) [] t = "toroidal" -> EG(x)
MatrixClauses(c) ==
  LET cs == Coefs(c)
      L == ETop(cs)
      off == IF c.negative THEN L ELSE 0
  IN IF Len(c.images) # Len(c.types) THEN {"number-of-images"}
     ELSE UNION {LET im == c.images[k]
                 IN IF Len(im) # L + 1 \/ \E r \in 1..(L + 1) : Len(im[r]) # L + 1 + off THEN {"image-size"}
                    ELSE IF \E r \in 1..(L + 1), s \in 1..(L + 1 + off) :
                              ~Fine(Cell(cs, r - 1, s - 1 - off, LAMBDA x : KindEnergy(x, c.types[k])), im[r][s], SizeOf(cs))
                         THEN {"image-value"} ELSE {} : k \in 1..Len(c.types)}
          \cup (IF c.placed THEN {} ELSE {"image-place"})
          \cup (IF \A k \in 1..Len(c.images) :
                     LET vs == {c.images[k][r][s] : r \in 1..(L + 1), s \in 1..(L + 1 + off)}
                         some == {v \in vs : FLt(FZero, v)}
                     IN (\A v \in vs : FLe(v, FTiny(1, 7)))                  \* (as good as nothing to show)
                        \/ \A v \in some : FLe(c.scales[k][1], v) /\ FLe(v, c.scales[k][2]) THEN {} ELSE {"off-the-scale"})
          \cup (IF \A k \in 1..Len(c.ticks) : FNear(FSub(c.ticks[k][1], FInt(off)), c.ticks[k][2], FTiny(1, 6)) THEN {} ELSE {"tick-label"})
LevelSum(cs, lo, hi, t) == Total(cs, LAMBDA x : KindEnergy(x, t), LAMBDA x : x.l >= lo /\ x.l <= hi)
CurveNames == <<"Total", "Poloidal", "Toroidal">>
CurveKinds == <<"total", "poloidal", "toroidal">>
DegreeClauses(c) ==
  LET cs == Coefs(c)
      L == ETop(cs)
      all == LevelSum(cs, 0, L, "total")
      unit == IF c.scaled THEN all ELSE FOne
      good(cv, k) == Len(cv.y) = L /\ \A n \in 1..L : /\ cv.x[n] = n
                      /\ Fine(FDiv(LevelSum(cs, IF cv.summed THEN 0 ELSE n, n, CurveKinds[k]), unit), cv.y[n], FDiv(SizeOf(cs), unit))
  IN IF ~FLt(FTiny(1, 9), all) THEN {}
     ELSE UNION {(IF \E j \in 1..Len(c.curves) : c.curves[j].name = CurveNames[k] /\ c.curves[j].summed = s
                    THEN {} ELSE {"curve-missing"}) : k \in 1..3, s \in BOOLEAN}
          \cup UNION {UNION {IF c.curves[j].name = CurveNames[k] /\ ~good(c.curves[j], k) THEN {"curve-value"} ELSE {}
                             : k \in 1..3} : j \in 1..Len(c.curves)}
          \cup (IF Len(c.curves) = 6 THEN {} ELSE {"number-of-curves"})
Pre == "magnetogram."
Pies == << << <<"poloidal", "poloidal.energy.fraction">>, <<"toroidal", "toroidal.energy.fraction">>,
              <<"radial", "radial.energy.fraction">>, <<"axisymmetric", "total.energy.axisymmetric.fraction">> >>,
           << <<"dipole", "total.energy.dipole.fraction">>, <<"quadrupole", "total.energy.quadrupole.fraction">>,
              <<"octopole", "total.energy.octopole.fraction">>, <<"axisymmetric", "total.energy.poloidal.axisymmetric.fraction">> >>,
           << <<"l1", "total.energy.toroidal.l1.fraction">>, <<"l2", "total.energy.toroidal.l2.fraction">>,
              <<"l3", "total.energy.toroidal.l3.fraction">>, <<"axisymmetric", "total.energy.toroidal.axisymmetric.fraction">> >> >>
SummaryClauses(c) ==
  LET cs == Coefs(c)
      nm == Named(cs)
      val(n) == nm[CHOOSE j \in 1..Len(nm) : nm[j][1] = Pre \o n]
      safe(t) == FLt(FTiny(1, 9), t[3])
      pie(k) == LET o == c.pies[k]
                IN IF Len(o) # 4 THEN {"number-of-shares"}
                   ELSE UNION {LET t == val(Pies[k][n][2])
                               IN (IF o[n].name = Pies[k][n][1] THEN {} ELSE {"share-name"})
                                  \cup (IF ~safe(t) \/ FNear(FDiv(t[2], t[3]), o[n].share, FTiny(1, 6)) THEN {} ELSE {"share"})
                                  \cup (IF ~safe(t) \/ FNear(FDiv(t[2], t[3]), o[n].text, FTiny(51, 4)) THEN {} ELSE {"share-text"})
                               : n \in 1..4}
  IN IF ~FLt(FTiny(1, 9), Tot(cs)) THEN {}
     ELSE pie(1) \cup pie(2) \cup (IF ~FLt(FTiny(1, 9), Tor(cs)) THEN {} ELSE pie(3))
Chk(c) ==
  CASE c.op = "refused" -> IF c.ok \/ c.changed THEN {"not-refused"} ELSE {}
    [] c.op = "field" -> FieldClauses(c)
    [] c.op = "matrix" -> MatrixClauses(c)
    [] c.op = "degree" -> DegreeClauses(c)
    [] c.op = "summary" -> SummaryClauses(c)
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
