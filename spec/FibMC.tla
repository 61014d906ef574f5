-------------------------------- MODULE FibMC --------------------------------
(* The points of a Fibonacci sphere laid down one after another. *)
EXTENDS Fibonacci
VARIABLES num, nxt, prev, sumy
fvars == <<num, nxt, prev, sumy>>
Nums == {1, 2, 3, 5, 8, 30}
Init == num \in Nums /\ nxt = 0 /\ prev = <<>> /\ sumy = FZero
Next == /\ nxt < num /\ nxt' = nxt + 1 /\ UNCHANGED num
        /\ prev' = Fib(num, nxt) /\ sumy' = FAdd(sumy, prev'[2])
Spec == Init /\ [][Next]_fvars
Tol == FTiny(1, 20)
Unit == prev # <<>> => FNear(Norm(prev), FOne, Tol)
Balanced == nxt = num => FNear(sumy, FZero, Tol)
InBand == prev # <<>> => /\ FLt(FRat(2 * (nxt - 1) - num, num), prev[2]) /\ FLt(prev[2], FRat(2 * nxt - num, num))
Turns == [][prev # <<>> /\ nxt' < num => Turned(prev, prev', OffAxis(num, nxt - 1), OffAxis(num, nxt), Golden, Tol)]_fvars
=============================================================================
