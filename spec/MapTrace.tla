------------------------------- MODULE MapTrace -------------------------------
(***************************************************************************)
(* Judges sessions of drawings on axes (C35).  A case is a session: steps  *)
(* in order, each with the request, the class of its values, what was on   *)
(* the axes afterwards (got) and what stands there at the end (later).     *)
(* Values are in units of a power of two per step, positions in degrees.   *)
(* A panel is given by xc, yc (centres), xe, ye (edges, or <<>>), vals.    *)
(***************************************************************************)
EXTENDS Map, Label, CaseRun
PosTol == FTiny(1, 8)
Near(a, b) == FNear(a, b, FAdd(PosTol, FMul(FAbs(a), FTiny(1, 11))))
Exact(a, b) == a = b
Half(a, b) == FDivInt(FAdd(a, b), 2)
(* the edges of cells around centres: half way, outer ones as far as the inner ones *)
EdgesOf(c) ==
  LET n == Len(c)
      mid == FoldLeft(LAMBDA r, k : Append(r, Half(c[k], c[k + 1])), <<>>, [k \in 1..(n - 1) |-> k])
  IN <<FSub(FMulInt(c[1], 2), mid[1])>> \o mid \o <<FSub(FMulInt(c[n], 2), mid[n - 1])>>
QuadClauses(s, got) ==
  LET xe == IF s.xe = <<>> THEN EdgesOf(s.xc) ELSE s.xe
      ye == IF s.ye = <<>> THEN EdgesOf(s.yc) ELSE s.ye
      good(q) == LET i == q.i j == q.j
                 IN /\ Near(q.x0, FMin(xe[i], xe[i + 1])) /\ Near(q.x1, FMax(xe[i], xe[i + 1]))
                    /\ Near(q.y0, FMin(ye[j], ye[j + 1])) /\ Near(q.y1, FMax(ye[j], ye[j + 1]))
  IN (IF {<<got.quads[k].i, got.quads[k].j>> : k \in 1..Len(got.quads)} = CellsOf(s.vals)
         /\ Len(got.quads) = Cardinality(CellsOf(s.vals)) THEN {} ELSE {"facets"})
     \cup (IF \A k \in 1..Len(got.quads) : <<got.quads[k].i, got.quads[k].j>> \in CellsOf(s.vals) /\ good(got.quads[k]) THEN {} ELSE {"facet-place"})
     \cup (IF \A k \in 1..Len(got.quads) : <<got.quads[k].i, got.quads[k].j>> \in CellsOf(s.vals)
                                           => Exact(got.quads[k].v, s.vals[got.quads[k].i][got.quads[k].j]) THEN {} ELSE {"facet-value"})
(* where a line of equal value meets the net of cells: on edges, and in cells of that value *)
Point(s, e, level) ==
  LET a == e[1] b == e[2]
      t == ShareAt(s.vals, e, level)
  IN <<FAdd(s.xc[a[1]], FMul(t, FSub(s.xc[b[1]], s.xc[a[1]]))), FAdd(s.yc[a[2]], FMul(t, FSub(s.yc[b[2]], s.yc[a[2]])))>>
Meets(p, q) == Near(q[1], p.x) /\ Near(q[2], p.y)
LineClauses(s, line) ==        \* line: [level, pts]
  LET on == {Point(s, e, line.level) : e \in Crossed(s.vals, line.level)}
      at == {<<s.xc[c[1]], s.yc[c[2]]>> : c \in {c \in CellsOf(s.vals) : At(s.vals, c) = line.level}}
  IN (IF \A k \in 1..Len(line.pts) : \E q \in on \cup at : Meets(line.pts[k], q) THEN {} ELSE {"line-off"})
     \cup (IF \A q \in on : \E k \in 1..Len(line.pts) : Meets(line.pts[k], q) THEN {} ELSE {"line-missing"})
DrawClauses(s, scale, drawn, got) ==
  QuadClauses(s, got)
  \cup (IF \/ Exact(got.lo, scale[1]) /\ Exact(got.hi, scale[2])
           \/ Exact(scale[1], scale[2]) /\ FLe(got.lo, scale[1]) /\ FLe(scale[2], got.hi)       \* one value: a bar widens the scale
         THEN {} ELSE {"colour-scale"})
  \cup (IF s.cmap = "" \/ s.cmap = got.cmap THEN {} ELSE {"colour-map"})
  \cup (IF drawn THEN (IF Len(got.lines) = 1 /\ got.lines[1].level = FZero THEN LineClauses(s, got.lines[1])
                       ELSE IF got.lines = <<>> /\ Crossed(s.vals, FZero) = {} THEN {} ELSE {"zero-line"})
        ELSE IF \A k \in 1..Len(got.lines) : got.lines[k].pts = <<>> THEN {} ELSE {"zero-line-drawn"})
MarkClauses(s, m, extreme, name) ==
  (IF \E c \in CellsOf(s.vals) : /\ Near(m.x, s.xc[c[1]]) /\ Near(m.y, s.yc[c[2]]) /\ Exact(At(s.vals, c), extreme)
   THEN {} ELSE {"mark-place"})
  \cup (IF TexDenotes(m.text, m.neg, m.num, m.den) /\ Exact(m.v, extreme) THEN {} ELSE {"mark-label"})
  \cup (IF m.name = name THEN {} ELSE {"mark-name"})
ExtremaClauses(s, got) ==
  LET vs == ValuesOf(s.vals)
  IN MarkClauses(s, got.max, Highest(vs), s.name) \cup MarkClauses(s, got.min, Lowest(vs), s.name)
     \cup (IF got.ret = <<>> \/ (Exact(got.ret[1], Lowest(vs)) /\ Exact(got.ret[2], Highest(vs))) THEN {} ELSE {"extremes-returned"})
ContourClauses(s, got) == UNION {LineClauses(s, got.lines[k]) : k \in 1..Len(got.lines)}
                          \cup (IF [k \in 1..Len(got.lines) |-> got.lines[k].level] = s.levels THEN {} ELSE {"levels"})
(* three panels with one colour scale *)
ComponentsClauses(s) ==
  LET all == UNION {ValuesOf(s.panels[k].vals) : k \in 1..Len(s.panels)}
      top == FMax(FAbs(Lowest(all)), FAbs(Highest(all)))
      bal == s.sym = "yes" \/ (s.sym = "auto" /\ {-1, 1} \subseteq {SignOf(x) : x \in all})
      scale == IF bal THEN <<FNeg(top), top>> ELSE <<Lowest(all), top>>
      pan(k) == LET p == s.panels[k]
                IN DrawClauses(p, scale, bal /\ CrossesZero(p.vals), p.got)
                   \cup ExtremaClauses(p, p.got)
                   \cup ContourClauses([p EXCEPT !.levels = s.levels], [lines |-> p.got.contours])
                   \cup (IF p.got.upright THEN {} ELSE {"upside-down"})
                   \cup (IF FNear(p.got.radius, s.radius, FTiny(50001, 6)) THEN {} ELSE {"radius-stated"})
                   \cup (IF /\ Highest(ValuesOf(p.vals)) \in {s.bar[j] : j \in 1..Len(s.bar)}
                            /\ Lowest(ValuesOf(p.vals)) \in {s.bar[j] : j \in 1..Len(s.bar)} THEN {} ELSE {"colour-bar-marks"})
  IN UNION {pan(k) : k \in 1..Len(s.panels)}
StepClauses(s) ==
  IF s.bad # <<>> THEN {s.bad[k] : k \in 1..Len(s.bad)}
  ELSE IF s.op = "components" THEN ComponentsClauses(s)
  ELSE (IF Class(s.vals) = s.class THEN {} ELSE {"class"})
       \cup (CASE s.op \in {"field", "equi"} ->
                    DrawClauses(s, ScaleOf(s, s.vals), HasLine(s, s.vals), s.got)
                    \cup (IF s.upright THEN {} ELSE {"upside-down"})
                    \cup (IF s.labelled THEN {} ELSE {"axis-labels"})
               [] s.op = "one" ->
                    DrawClauses(s, ScaleOf(s, s.vals), HasLine(s, s.vals), s.got)
                    \cup ExtremaClauses(s, s.got) \cup ContourClauses(s, [lines |-> s.got.contours])
                    \cup (IF s.upright THEN {} ELSE {"upside-down"})
                    \cup (IF s.labelled THEN {} ELSE {"axis-labels"})
                    \cup (IF {Highest(ValuesOf(s.vals)), Lowest(ValuesOf(s.vals))} \subseteq {s.bar[j] : j \in 1..Len(s.bar)}
                          THEN {} ELSE {"colour-bar-marks"})
               [] s.op = "extrema" -> ExtremaClauses(s, s.got)
               [] s.op = "contours" -> ContourClauses(s, s.got))
       \cup (IF s.op = "one" \/ s.later = s.got THEN {} ELSE {"layer-changed"})
       \cup (IF s.kept THEN {} ELSE {"input-changed"})
Chk(c) == UNION {StepClauses(c.steps[k]) : k \in 1..Len(c.steps)} \cup (IF c.upright THEN {} ELSE {"upside-down"})
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
