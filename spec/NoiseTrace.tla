------------------------------- MODULE NoiseTrace -------------------------------
(* Judges random coefficient sets (C32): lo, hi, h (beta = h/512), sizes (of the requests for draws), *)
(* draws (pairs of numbers handed out, in order), es (entries [l, m, v] in order of storing).        *)
EXTENDS Noise, CaseRun
Tol(v) == FAdd(FTiny(1, 24), FMul(FAbs(v), FTiny(1, 12)))
Chk(c) ==
  LET n == NumDraws(c.lo, c.hi)
  IN IF Len(c.draws) # n THEN {"number-of-draws"}
     ELSE LET s == FoldLeft(LAMBDA a, d : Draw(a, d, c.h), Begin(c.lo, c.hi), c.draws)
          IN IF Len(c.es) # n \/ {<<c.es[k].l, c.es[k].m>> : k \in 1..Len(c.es)} # Pairs(c.lo, c.hi) THEN {"pairs"}
             ELSE IF \A k \in 1..n : \E j \in 1..n : /\ c.es[j].l = s.set[k].l /\ c.es[j].m = s.set[k].m
                                                     /\ FNear(c.es[j].v[1], s.set[k].v[1], Tol(s.set[k].v[1]))
                                                     /\ FNear(c.es[j].v[2], s.set[k].v[2], Tol(s.set[k].v[2]))
                  THEN {} ELSE {"value"}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
