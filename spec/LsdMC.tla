-------------------------------- MODULE LsdMC --------------------------------
(* A spectrum recorded sample by sample; at every moment the intervals partition it at  *)
(* the gaps, and a new sample only extends the last interval or opens a new one.         *)
EXTENDS Lsd, Sequences, TLC, Json
CONSTANT Most, Emit
VARIABLES wls
Limit == FRat(1, 4)
Moves == {FRat(1, 8), FRat(1, 4), FRat(3, 8), FInt(2), FRat(-1, 2), FRat(-1, 8), FZero}
Out(w) == IF Emit /\ Len(w) > 1 THEN PrintT("BEH " \o ToJson([w |-> w, iv |-> Intervals(w, Limit)])) ELSE TRUE
Init == wls = <<FInt(500)>>
Next == /\ Len(wls) < Most
        /\ \E d \in (IF Len(wls) > 4 THEN {FRat(1, 8), FRat(1, 4), FInt(2)} ELSE Moves) :
              /\ wls' = Append(wls, FAdd(wls[Len(wls)], d))
              /\ Out(wls')
Spec == Init /\ [][Next]_wls
Parts == Partition(Intervals(wls, Limit), Len(wls))
Breaks == BreaksAtGaps(Intervals(wls, Limit), wls, Limit)
(* the samples between two percentiles are the rest of them *)
Middle == LET lo == Percentile(wls, 20)
              hi == Percentile(wls, 80)
              n == Len(wls)
          IN /\ FLe(lo, hi) /\ FLe(Percentile(wls, 0), lo) /\ FLe(hi, Percentile(wls, 100))
             /\ \A k \in 1..n : FLe(Percentile(wls, 0), wls[k]) /\ FLe(wls[k], Percentile(wls, 100))
             /\ 100 * Cardinality({k \in 1..n : FLt(wls[k], lo)}) <= 20 * n + 80
             /\ 100 * Cardinality({k \in 1..n : FLt(hi, wls[k])}) <= 20 * n + 80
Grows == [][LET a == Intervals(wls, Limit)
                b == Intervals(wls', Limit)
            IN \/ Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a
               \/ Len(b) = Len(a) /\ SubSeq(b, 1, Len(a) - 1) = SubSeq(a, 1, Len(a) - 1) /\ b[Len(a)][1] = a[Len(a)][1]]_wls
=============================================================================
