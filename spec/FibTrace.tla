------------------------------- MODULE FibTrace -------------------------------
(* Judges Fibonacci spheres (C27): n, fixed (not randomised), pts: for small n all points, *)
(* otherwise some runs of successive ones, each [k, p]; whole: pts has all of them.         *)
EXTENDS Fibonacci, CaseRun
Tol == FTiny(1, 11)
Sound(c, q) == LET x == c.pts[q]
               IN (IF FNear(x.p[2], MidBand(c.n, x.k), Tol) THEN {} ELSE {"band"})
                  \cup (IF FNear(Norm(x.p), FOne, Tol) THEN {} ELSE {"unit-norm"})
                  \cup (IF ~c.fixed \/ VNear(x.p, Fib(c.n, x.k), Tol) THEN {} ELSE {"azimuth"})
Odd(c) == {q \in 1..(Len(c.pts) - 1) : LET x == c.pts[q] y == c.pts[q + 1]
            IN y.k = x.k + 1 /\ ~Turned(x.p, y.p, OffAxis(c.n, x.k), OffAxis(c.n, y.k), Golden, Tol)}
Back(c, q) == LET x == c.pts[q] y == c.pts[q + 1]
              IN Turned(x.p, y.p, OffAxis(c.n, x.k), OffAxis(c.n, y.k), FMulInt(Golden, 1 - c.n), Tol)
Chk(c) == UNION {Sound(c, q) : q \in 1..Len(c.pts)}
          \cup (IF \A q, r \in Odd(c) : q = r THEN {} ELSE {"golden-turns"})
          \cup (IF \A q \in Odd(c) : Back(c, q) THEN {} ELSE {"turn-back"})
          \cup (IF c.whole /\ Len(c.pts) # c.n THEN {"number-of-points"} ELSE {})
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
