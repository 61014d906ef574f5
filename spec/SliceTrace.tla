------------------------------- MODULE SliceTrace -------------------------------
(***************************************************************************)
(* Judges pictures of fields (C28): slices of the potential field, maps of *)
(* its components at a radius, and stream traces on the surface.           *)
(***************************************************************************)
EXTENDS Slice, Stats, Label, CaseRun
Deg(x) == FDiv(FMulInt(x, 180), FPi)
Rad(x) == FDivInt(FMul(x, FPi), 180)
DegTol == FTiny(1, 9)
(* the colours of all panels mean the same, what the bar says; zero is in the middle when there are both signs *)
ScaleClauses(scales, signs) ==
  (IF \A k \in 1..Len(scales) : scales[k] = scales[1] THEN {} ELSE {"colours-differ"})
  \cup (IF ~signs \/ FNear(scales[1].lo, FNeg(scales[1].hi), FMul(FAbs(scales[1].hi), FTiny(1, 9))) THEN {} ELSE {"zero-off-centre"})
(* ---- slices ---- *)
NearR0(c, r) == FNear(r, c.r0, FTiny(1, 6))
SliceQuad(c, o) ==
  LET p == PlanePoint(c.normal, o.u, o.v)
      d == DirOf(p)
      r == Norm(p)
  IN IF NearR0(c, r) \/ FLt(d[2], FTiny(1, 4)) THEN {}
     ELSE IF FNear(PfssField(c.coefs, d, r, c.r0, c.rss)[1], o.x, FMulInt(PTol(c.coefs, d), 8)) THEN {}
          ELSE {IF FLt(r, c.r0) THEN "value-inside-star" ELSE "value"}
Fine(c, p) ==          \* close enough together for the lines to be drawn well: away from star, axis and steep gradients
  LET r == Norm(p)
  IN /\ FLe(FAdd(c.r0, FMulInt(c.cell, 2)), r) /\ FLe(FMulInt(c.cell, 5 * (PTopL(c.coefs) + 2)), r)
     /\ ~FLt(DirOf(p)[2], FTiny(1, 4))
SliceLine(c, s) ==
  LET a == PlanePoint(c.normal, s[1], s[2])
      b == PlanePoint(c.normal, s[3], s[4])
      e == <<FSub(s[3], s[1]), FSub(s[4], s[2])>>
  IN IF ~Fine(c, a) \/ ~Fine(c, b) THEN {}
     ELSE LET fa == InPlane(c.normal, VectorAt(c.coefs, a, c.r0, c.rss))
              fb == InPlane(c.normal, VectorAt(c.coefs, b, c.r0, c.rss))
              small == FMul(PMagnitude(c.coefs), FTiny(1, 6))
          IN IF FLt(Len2(fa), small) \/ FLt(Len2(fb), small) \/ ~Along(fa, fb, 95, 100) \/ Along(e, Sum2(fa, fb), 85, 100) THEN {}
             ELSE {"line-across-the-field"}
(* lines are integrated in a coarse interpolation: of the pieces judged most have to be right *)
Mostly(sets, name) == LET wrong == FoldLeft(LAMBDA n, x : IF name \in x THEN n + 1 ELSE n, 0, sets)
                      IN IF 8 * wrong > Len(sets) THEN {name} ELSE {}
SliceClauses(c) ==
  UNION {SliceQuad(c, c.quads[k]) : k \in 1..Len(c.quads)}
  \cup Mostly(Over(c.segs, LAMBDA x : SliceLine(c, x)), "line-across-the-field")
  \cup (IF \A i \in 1..2 : c.labels[i] = AxisNames[PlaneAxes(c.normal)[i]] THEN {} ELSE {"axis-name"})
  \cup (IF \A k \in 1..4 : FNear(FAbs(c.extent[k]), c.rmax, FMul(c.rmax, FTiny(1, 9)))
           /\ FLt(c.extent[1], c.extent[2]) /\ FLt(c.extent[3], c.extent[4]) THEN {} ELSE {"extent"})
  \cup (IF Len(c.circles) = 2 THEN {} ELSE {"number-of-circles"})
  \cup UNION {IF \A p \in 1..Len(c.circles[k]) : FNear(Len2(c.circles[k][p]), IF k = 1 THEN c.r0 ELSE c.rss, c.cell)
              THEN {} ELSE {"circle"} : k \in 1..Len(c.circles)}
  \cup ScaleClauses(c.scales, TRUE)
(* ---- maps at a radius ---- *)
GridOf(c) == [ts |-> c.ts, ps |-> c.ps]
TexOf(k) == << <<"B", "_", "r">>, <<"B", "_", "\\", "t", "h", "e", "t", "a">>, <<"B", "_", "\\", "p", "h", "i">> >>[k]
PlaceClauses(g, o) ==
  LET a == CentreAngles(g, o.i, o.j)
      x == Deg(a[2])
      y == Deg(a[1])
  IN IF FLt(o.x0, x) /\ FLt(x, o.x1) /\ FLt(o.y0, y) /\ FLt(y, o.y1) THEN {} ELSE {"facet-place"}
Mark(g, m, k, want, tol) ==
  LET a == CentreAngles(g, m.i, m.j)
  IN (IF FNear(m.x, Deg(a[2]), DegTol) /\ FNear(m.y, Deg(a[1]), DegTol) THEN {} ELSE {"mark-position"})
     \cup (IF FNear(m.v, want, tol) THEN {} ELSE {"mark-value"})
     \cup (IF TexDenotes(m.text, m.neg, m.num, m.den) THEN {} ELSE {"mark-label"})
     \cup (IF m.name = TexOf(k) THEN {} ELSE {"mark-name"})
MapsClauses(c) ==
  LET g == GridOf(c)
      at(i, j, k) == PfssField(c.coefs, CentreDir(g, i, j), c.radius, c.r0, c.rss)[k]
      tol(i, j) == FMulInt(PTol(c.coefs, CentreDir(g, i, j)), 8)
      cells == Cells(g)
      panel(k) ==
        LET p == c.panels[k]
            all == Over(cells, LAMBDA x : at(x[1], x[2], k))
            slack(x) == tol(x[1], x[2])
        IN UNION {PlaceClauses(g, p.quads[n]) \cup (IF FNear(p.quads[n].v, at(p.quads[n].i, p.quads[n].j, k), tol(p.quads[n].i, p.quads[n].j))
                                                    THEN {} ELSE {"facet-value"}) : n \in 1..Len(p.quads)}
           \cup Mark(g, p.max, k, at(p.max.i, p.max.j, k), tol(p.max.i, p.max.j))
           \cup Mark(g, p.min, k, at(p.min.i, p.min.j, k), tol(p.min.i, p.min.j))
           \cup (IF \A n \in 1..Len(cells) : /\ FLe(FSub(all[n], p.max.v), slack(cells[n]))
                                             /\ FLe(FSub(p.min.v, all[n]), slack(cells[n])) THEN {} ELSE {"mark-no-extreme"})
           \cup (IF p.up THEN {} ELSE {"upside-down"})
           \cup (IF p.count = Len(cells) THEN {} ELSE {"number-of-facets"})
           \cup (IF FNear(p.radius, c.radius, FTiny(51, 3)) THEN {} ELSE {"radius-stated"})
  IN IF Len(c.panels) # 3 THEN {"number-of-panels"}
     ELSE UNION {panel(k) : k \in 1..3}
          \cup ScaleClauses(c.scales, \E k, n \in 1..3 : FLt(c.panels[k].min.v, FZero) /\ FLt(FZero, c.panels[n].max.v))
(* ---- stream traces ---- *)
Surface(c, d) == IF c.kind = "pfss" THEN PfssField(c.coefs, d, FOne, FOne, FRat(5, 2))
                 ELSE LET p == Parts(c.coefs, d) IN <<Radial(p), Polar(p), Azimuthal(p)>>
Coloured(c, w) == IF c.kind = "pfss" THEN w[1] ELSE FSqrt(FAdd(FSq(w[1]), FAdd(FSq(w[2]), FSq(w[3]))))
STol(c, d) == FMulInt(IF c.kind = "pfss" THEN PTol(c.coefs, d) ELSE FieldTol(c.coefs, d), 8)
Tangential(w) == <<w[3], w[2]>>                     \* to the right, and down the map
TraceClauses(c) ==
  LET g == GridOf(c)
      cells == Cells(g)
      strong == FoldLeft(LAMBDA x, k : FMax(x, Len2(Tangential(Surface(c, CentreDir(g, k[1], k[2]))))), FZero, cells)
      quad(o) == LET d == CentreDir(g, o.i, o.j)
                 IN PlaceClauses(g, o) \cup (IF FNear(o.v, Coloured(c, Surface(c, d)), STol(c, d)) THEN {} ELSE {"facet-value"})
      seg(s) ==
        LET da == Direction(Rad(s[2]), Rad(s[1]))
            db == Direction(Rad(s[4]), Rad(s[3]))
            fa == Tangential(Surface(c, da))
            fb == Tangential(Surface(c, db))
            e == <<FSub(s[3], s[1]), FSub(s[4], s[2])>>
            few == FMul(strong, FRat(1, 5))
        IN IF FLt(da[2], FRat(1, 4)) \/ FLt(db[2], FRat(1, 4)) THEN {}
           ELSE (IF FLt(Len2(fa), few) \/ FLt(Len2(fb), few) \/ FLt(Len2(e), FTiny(1, 3)) \/ ~Along(fa, fb, 95, 100) \/ Along(e, Sum2(fa, fb), 85, 100)
                 THEN {} ELSE {"trace-across-the-field"})
                \cup (IF FNear(s[5], FDiv(FMulInt(Len2(fa), 3), strong), FRat(4, 5)) THEN {} ELSE {"line-width"})
  IN UNION {quad(c.quads[k]) : k \in 1..Len(c.quads)}
     \cup (LET all == Over(c.segs, seg) IN Mostly(all, "trace-across-the-field") \cup Mostly(all, "line-width"))
     \cup (IF c.up THEN {} ELSE {"upside-down"})
     \cup (IF c.count = Len(cells) THEN {} ELSE {"number-of-facets"})
     \cup (IF Len(c.legend) > 0 /\ \A k \in 1..Len(c.legend) :
                FNear(c.legend[k][1], FDiv(FMulInt(c.legend[k][2], 3), strong), FDiv(FRat(16, 100), strong)) THEN {} ELSE {"legend-width"})
     \cup ScaleClauses(c.scales, c.kind = "pfss")
     \cup (IF c.kind = "pfss" \/ c.scales[1].lo = FZero THEN {} ELSE {"scale-not-from-zero"})
Chk(c) == CASE c.op = "slice" -> SliceClauses(c) [] c.op = "maps" -> MapsClauses(c) [] c.op = "traces" -> TraceClauses(c)
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
