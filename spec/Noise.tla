--------------------------------- MODULE Noise ---------------------------------
(***************************************************************************)
(* Random coefficient sets: a machine that walks the pairs by degree and   *)
(* order, takes one pair of draws at each and stores them scaled.          *)
(* beta = h/512: l^beta is a whole power of l times a power of the         *)
(* ninefold square root of l.                                              *)
(***************************************************************************)
EXTENDS Real, Integers, SequencesExt, TLC
Zero2 == <<FZero, FZero>>
Begin(lo, hi) == [l |-> lo, m |-> 0, hi |-> hi, drawn |-> 0, set |-> <<>>]
Finished(s) == s.l > s.hi
Root512(l) == FoldLeft(LAMBDA x, k : FSqrt(x), FInt(l), [k \in 1..9 |-> k])
RootPow(l, h) ==
  IF h < 0 THEN FDiv(FOne, FMul(FPow(FInt(l), (-h) \div 512), IF (-h) % 512 = 0 THEN FOne ELSE FPow(Root512(l), (-h) % 512)))
  ELSE FMul(FPow(FInt(l), h \div 512), IF h % 512 = 0 THEN FOne ELSE FPow(Root512(l), h % 512))
Damping(l, h) == FMulInt(IF h = 0 THEN FOne ELSE RootPow(l, h), 2 * l + 1)
Draw(s, d, h) ==
  LET q == Damping(s.l, h)
  IN [s EXCEPT !.drawn = s.drawn + 1,
               !.set = Append(s.set, [l |-> s.l, m |-> s.m, v |-> <<FDiv(d[1], q), FDiv(d[2], q)>>]),
               !.l = IF s.m = s.l THEN s.l + 1 ELSE s.l, !.m = IF s.m = s.l THEN 0 ELSE s.m + 1]
Pairs(lo, hi) == {p \in (0..hi) \X (0..hi) : lo <= p[1] /\ p[2] <= p[1]}
NumDraws(lo, hi) == IF hi < lo THEN 0 ELSE ((hi + 1) * (hi + 2)) \div 2 - (lo * (lo + 1)) \div 2
=============================================================================
