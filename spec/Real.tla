-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Fixed-point reals: a real x is the big integer trunc(x * 2^90).         *)
(* Elementary functions by series; absolute error well below 1e-22 for     *)
(* the argument ranges used (BigIntCheck.tla checks identities).           *)
(***************************************************************************)
EXTENDS BigInt, SequencesExt

FL == 6                               \* fraction limbs: 90 bits
FZero == BZero
FOne == BShl(BFromInt(1), FL)
FInt(n) == BShl(BFromInt(n), FL)
FRat(p, q) == BQuo(FInt(p), BFromInt(q))
FAdd(a, b) == BAdd(a, b)
FSub(a, b) == BSub(a, b)
FNeg(a) == BNeg(a)
FAbs(a) == BAbs(a)
FMul(a, b) == BMulShr(a, b, FL)
FDiv(a, b) == BShlQuo(a, b, FL)
FSqrt(a) == BSqrt(BShl(a, FL))
FMulInt(a, n) == BMul(a, BFromInt(n))
FDivInt(a, n) == BQuo(a, BFromInt(n))
FSq(a) == FMul(a, a)
FLt(a, b) == BCmp(a, b) < 0
FLe(a, b) == BCmp(a, b) <= 0
FMax(a, b) == IF FLt(a, b) THEN b ELSE a
FMin(a, b) == IF FLt(a, b) THEN a ELSE b
FSum(s) == FoldLeft(LAMBDA acc, x : BAdd(acc, x), FZero, s)
FDot(a, b) == FSum([i \in 1..Len(a) |-> FMul(a[i], b[i])])

(* 10^-k and a*10^-k *)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN BFromInt(1) ELSE BMul(BFromInt(10), Pow10(k - 1))
FTiny(a, k) == BQuo(FInt(a), Pow10(k))

(* x^n, n >= 0 *)
RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN FOne
              ELSE LET h == FPow(x, n \div 2)
                       q == FMul(h, h)
                   IN IF n % 2 = 0 THEN q ELSE FMul(q, x)

(* |a - b| <= tol *)
FNear(a, b, tol) == FLe(FAbs(FSub(a, b)), tol)

(* pi by Machin: arctan(1/n) = sum (-1)^k / ((2k+1) n^(2k+1)) *)
AtanInv(n, terms) ==
  LET step(acc, k) ==
        LET p == BQuo(acc[2], BFromInt(n * n))
        IN << IF k % 2 = 1 THEN BSub(acc[1], BQuo(p, BFromInt(2 * k + 1)))
                           ELSE BAdd(acc[1], BQuo(p, BFromInt(2 * k + 1))), p >>
      x0 == FRat(1, n)
  IN FoldLeft(step, <<x0, x0>>, [k \in 1..terms |-> k])[1]
FPi == FSub(FMulInt(AtanInv(5, 24), 16), FMulInt(AtanInv(239, 8), 4))
FTwoPi == FMulInt(FPi, 2)

(* nearest-integer reduction to [-pi, pi] *)
FReduce(x) ==
  LET q == BShr(FDiv(FAdd(FAbs(x), FPi), FTwoPi), FL)      \* whole turns of |x|
      r == FSub(FAbs(x), BMul(q, FTwoPi))
  IN IF Sgn(x) < 0 THEN FNeg(r) ELSE r

TrigIdx == [k \in 1..13 |-> k]
(* <<cos x, sin x>> *)
FCosSin(x) ==
  LET y  == FDivInt(FReduce(x), 32)
      y2 == FMul(y, y)
      step(acc, k) ==                                        \* <<cos, sin, term>>
        LET tc == FDivInt(FMul(acc[3], y2), 2 * k * (2 * k - 1))
            ts == FDivInt(FMul(acc[4], y2), 2 * k * (2 * k + 1))
        IN IF k % 2 = 1 THEN <<FSub(acc[1], tc), FSub(acc[2], ts), tc, ts>>
                        ELSE <<FAdd(acc[1], tc), FAdd(acc[2], ts), tc, ts>>
      s0 == FoldLeft(step, <<FOne, y, FOne, y>>, TrigIdx)
      dbl(acc, k) == << FSub(FSq(acc[1]), FSq(acc[2])),
                        FMulInt(FMul(acc[1], acc[2]), 2) >>
  IN FoldLeft(dbl, <<s0[1], s0[2]>>, <<1, 2, 3, 4, 5>>)

(* natural logarithm of x > 0: x = 2^k * y, ln y by atanh series *)
RECURSIVE LnScale(_, _)
LnScale(x, k) == IF FLt(FRat(3, 2), x) THEN LnScale(BQuo(x, BFromInt(2)), k + 1)
                 ELSE IF FLt(x, FRat(3, 4)) THEN LnScale(FMulInt(x, 2), k - 1)
                 ELSE <<x, k>>
AtanhSeries(z, terms) ==
  LET z2 == FMul(z, z)
      step(acc, k) == LET p == FMul(acc[2], z2)
                      IN <<FAdd(acc[1], FDivInt(p, 2 * k + 1)), p>>
  IN FoldLeft(step, <<z, z>>, [k \in 1..terms |-> k])[1]
FLn2 == FMulInt(AtanhSeries(FRat(1, 3), 30), 2)
FLn(x) == LET s == LnScale(x, 0)
              z == FDiv(FSub(s[1], FOne), FAdd(s[1], FOne))
          IN FAdd(FMulInt(AtanhSeries(z, 22), 2), FMulInt(FLn2, s[2]))
=============================================================================
