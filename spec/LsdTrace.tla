------------------------------- MODULE LsdTrace -------------------------------
(***************************************************************************)
(* Judges wavelength intervals and spectrum plots (C22), profile and stack *)
(* plots (C23).                                                            *)
(***************************************************************************)
EXTENDS Lsd, CaseRun
IntervalClauses(c) ==
  IF c.iv = Intervals(c.w, c.limit) THEN {}
  ELSE (IF Partition(c.iv, Len(c.w)) THEN {} ELSE {"partition"})
       \cup (IF BreaksAtGaps(c.iv, c.w, c.limit) THEN {} ELSE {"breaks"}) \cup {"intervals"}
Samples(rows, col) == FoldLeft(LAMBDA r, d : Append(r, <<d[1], d[col]>>), <<>>, rows)
SpectrumClauses(c) ==
  IF Len(c.panels) # 5 THEN {"panels"}
  ELSE {"panel-samples" : k \in {q \in 1..5 : ~SameBag(c.panels[q], Samples(c.rows, q + 1))}}
       \cup {"panel-range" : k \in {q \in 1..5 :                        \* whole column; the errors, drawn on a logarithmic scale, too
               LET col == FoldLeft(LAMBDA r, d : Append(r, d[q + 1]), <<>>, c.rows)
                   lo == Percentile(col, 3)
                   hi == Percentile(col, 97)
               IN FLt(FTiny(1, 6), FSub(hi, lo)) /\ ~(FNear(c.ylims[q][1], lo, FTiny(1, 12)) /\ FNear(c.ylims[q][2], hi, FTiny(1, 12)))}}
RECURSIVE Has(_, _)
Has(text, what) == Len(text) >= Len(what) /\ (SubSeq(text, 1, Len(what)) = what \/ Has(Tail(text), what))
Names(label, p) == Has(label, <<p, "/", "I">>)
RowTol(rows) == FMul(FTiny(1, 12), FoldLeft(LAMBDA x, d : FMax(x, FoldLeft(LAMBDA y, v : FMax(y, FAbs(v)), FOne, d)), FOne, rows))
ProfileClauses(c) ==
  IF Len(c.panels) # Len(c.params) THEN {"number-of-panels"}
  ELSE UNION {(IF Shows(c.panels[k], Panel(c.rows, c.params[k]), RowTol(c.rows)) THEN {} ELSE {"panel-data"})
              \cup (IF Names(c.labels[k], c.params[k]) THEN {} ELSE {"panel-label"}) : k \in 1..Len(c.params)}
       \cup (IF c.wrote = c.asked THEN {} ELSE {"files-written"})
Lo(p) == FoldLeft(LAMBDA x, r : FMin(x, r[3]), p[1][3], p)
Hi(p) == FoldLeft(LAMBDA x, r : FMax(x, r[4]), p[1][4], p)
StackClauses(c) ==
  IF Len(c.panels) # Len(c.stack) THEN {"number-of-panels"}
  ELSE UNION {(IF Shows(c.panels[k], Panel(c.stack[k], "V"), RowTol(c.stack[k])) THEN {} ELSE {"panel-data"})
              \cup (IF c.names = <<>> \/ c.legends[k] = c.names[k] THEN {} ELSE {"panel-name"})
              \cup (CASE c.limits = "same" -> IF \A q \in 1..Len(c.stack) : FLe(c.ylims[k][1], Lo(Panel(c.stack[q], "V")))
                                                        /\ FLe(Hi(Panel(c.stack[q], "V")), c.ylims[k][2]) /\ c.ylims[k] = c.ylims[q]
                                               THEN {} ELSE {"common-limits"}
                      [] c.limits = "given" -> IF c.ylims[k] = c.given THEN {} ELSE {"given-limits"}
                      [] OTHER -> {})
              : k \in 1..Len(c.stack)}
Chk(c) == CASE c.op = "intervals" -> IntervalClauses(c)
            [] c.op = "spectrum" -> SpectrumClauses(c)
            [] c.op = "profile" -> ProfileClauses(c)
            [] c.op = "stack" -> StackClauses(c)
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
