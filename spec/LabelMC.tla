------------------------------- MODULE LabelMC -------------------------------
(* A tick label relabelled again and again: what it denotes moves by the total shift, *)
(* and labels written by the specification read back as what they were written for.    *)
EXTENDS Label
VARIABLES txt, tot, start
lvars == <<txt, tot, start>>
Some == {<<g, e>> : g \in BOOLEAN, e \in {-12, -1, 0, 1, 9, 10, 30}}
Others == {ZeroText, <<"$", "x", "^", "{", "2", "}", "$">>, <<"1", "0">>, <<>>, <<"$", "1", "0", "^", "{", "a", "}", "$">>, <<"{", "4", "}">>}
Init == /\ tot = 0
        /\ \/ \E s \in Some : start = s /\ txt = Write(s[1], s[2])
           \/ \E o \in Others : start = <<>> /\ txt = o
Next == \E s \in {-7, 1, 4} : tot + s \in -15..15 /\ tot' = tot + s /\ txt' = Shift(txt, s) /\ UNCHANGED start
Spec == Init /\ [][Next]_lvars
Reads == start # <<>> => IsTick(txt) /\ Denoted(txt) = <<IF start[1] THEN -1 ELSE 1, start[2] + tot>>
Keeps == start = <<>> => txt \in Others
Writes == start # <<>> => txt = Write(start[1], start[2] + tot)
Ticks == \A lo \in {-3, 0, 2}, w \in 0..3, st \in 1..3 :
           LET j == MajorTicks(lo, lo + w, st) n == MinorTicks(lo, lo + w)
           IN /\ Len(j) = 2 * (w \div st) + 3 /\ Len(n) = 18 * (w + 2) + 1
              /\ \A k \in 1..Len(j) : j[k][1] = -j[Len(j) + 1 - k][1]
=============================================================================
