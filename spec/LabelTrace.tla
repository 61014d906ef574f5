------------------------------ MODULE LabelTrace ------------------------------
(***************************************************************************)
(* Judges tick marks, labels and numbers written for plots (C26).          *)
(* Values come as [s (sign), v (<<mantissa, exponent>>)].                  *)
(***************************************************************************)
EXTENDS Label, Parker, CaseRun
LnTen == FLn(FInt(10))
Is(o, d, e) == IF d = 0 THEN o.s = 0
               ELSE /\ o.s = (IF d < 0 THEN -1 ELSE 1)
                    /\ FNear(Ln(o.v), FAdd(FLn(FInt(IF d < 0 THEN -d ELSE d)), FMulInt(LnTen, e)), FTiny(1, 13))
MajorClauses(c) ==
  LET w == MajorTicks(c.lo, c.hi, c.st)
  IN IF Len(c.vals) # Len(w) \/ Len(c.labels) # Len(w) THEN {"number-of-ticks"}
     ELSE UNION {(IF Is(c.vals[k], w[k][1], w[k][2]) THEN {} ELSE {"value"})
                 \cup (IF IsTick(c.labels[k]) /\ Denoted(c.labels[k]) = w[k] THEN {} ELSE {"label"}) : k \in 1..Len(w)}
MinorClauses(c) ==
  LET w == MinorTicks(c.lo, c.hi)
  IN IF Len(c.vals) # Len(w) THEN {"number-of-minor-ticks"}
     ELSE IF \A k \in 1..Len(w) : Is(c.vals[k], w[k][1], w[k][2]) THEN {} ELSE {"minor-value"}
(* a symlog colour bar from -(b/10) 10^k (b = 0: from 0) to (a/10) 10^hi: the marks within, at the values of their labels *)
Within(c, d, e) == d = 0 \/ (d > 0 /\ (e < c.hi \/ (e = c.hi /\ 10 * d <= c.a))) \/ (d < 0 /\ c.b > 0 /\ (e < c.k \/ (e = c.k /\ -10 * d <= c.b)))
BarClauses(c) ==
  LET w == SelectSeq(MajorTicks(c.lo, c.hi, c.st), LAMBDA x : Within(c, x[1], x[2]))
      n == SelectSeq(MinorTicks(c.lo, c.hi), LAMBDA x : Within(c, x[1], x[2]))
  IN (IF Len(c.vals) # Len(w) \/ Len(c.labels) # Len(w) THEN {"number-of-marks"}
      ELSE UNION {(IF Is(c.vals[k], w[k][1], w[k][2]) THEN {} ELSE {"mark-place"})
                  \cup (IF IsTick(c.labels[k]) /\ Denoted(c.labels[k]) = w[k] THEN {} ELSE {"mark-label"}) : k \in 1..Len(w)})
     \cup (IF \A k \in 1..Len(n) : \E j \in 1..Len(c.minor) : Is(c.minor[j], n[k][1], n[k][2])
                                                              \/ \E i \in 1..Len(w) : w[i] = n[k] THEN {} ELSE {"minor-mark-missing"})
     \cup (IF \A j \in 1..Len(c.minor) : \E k \in 1..Len(n) : Is(c.minor[j], n[k][1], n[k][2]) THEN {} ELSE {"minor-mark-place"})
Chk(c) ==
  CASE c.op = "major" -> MajorClauses(c)
    [] c.op = "minor" -> MinorClauses(c)
 [] c.op = "bar" -> BarClauses(c)
    [] c.op = "shift" -> IF c.out = Shift(c.txt, c.by) THEN {} ELSE {"relabelled"}
    [] c.op = "tex" -> IF TexDenotes(c.out, c.neg, c.num, c.den) THEN {} ELSE {"denotes"}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
