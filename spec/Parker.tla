-------------------------------- MODULE Parker --------------------------------
(***************************************************************************)
(* The isothermal transonic wind.  Numbers of arbitrary scale come as      *)
(* <<mantissa, exponent>>, value mantissa * 2^exponent, and the laws are   *)
(* stated for logarithms, so that every decade is judged alike.            *)
(***************************************************************************)
EXTENDS Real
FL2(e) == FMulInt(FLn2, e)
Ln(s) == FAdd(FLn(s[1]), FL2(s[2]))
RECURSIVE Half(_, _)
Half(x, n) == IF n = 0 THEN x ELSE Half(BQuo(x, BFromInt(2)), n - 1)
(* the plain value, where it is neither huge nor negligible *)
Plain(s) == IF s[2] >= 0 THEN IF s[2] > 300 THEN FMulInt(FInt(1000000000), 1000000000) ELSE FMul(s[1], FPow(FInt(2), s[2]))
            ELSE IF s[2] < -95 THEN FZero ELSE Half(s[1], -s[2])
(* v^2 - 2 ln v = 4 ln r + 4/r - 3 *)
SpeedSide(v) == FSub(FSq(Plain(v)), FMulInt(Ln(v), 2))
RadiusSide(r) == FAdd(FMulInt(Ln(r), 4), FSub(FDiv(FInt(4), Plain(r)), FInt(3)))
OnCurve(v, r, tol) == FNear(SpeedSide(v), RadiusSide(r), FMul(tol, FAdd(FOne, FDiv(FInt(4), Plain(r)))))
(* the transonic branch: v - 1 has the sign of r - 1, and near the sonic point v - 1 ~ r - 1 *)
Close == FTiny(1, 6)
Transonic(v, r) ==
  LET x == FSub(Plain(r), FOne)
      y == FSub(Plain(v), FOne)
  IN IF FLt(Close, x) THEN FLt(FZero, y)
     ELSE IF FLt(x, FNeg(Close)) THEN FLt(y, FZero)
     ELSE FLt(FAbs(y), FMulInt(Close, 10))
(* the subsonic and the supersonic solution at one radius *)
BelowOne(v) == FLe(Plain(v), FAdd(FOne, FTiny(1, 7)))
AboveOne(v) == FLe(FSub(FOne, FTiny(1, 7)), Plain(v))
(* reference speed by bisection in ln v on the branch *)
Bis(v, r) == FSub(FSub(FSq(v), FMulInt(FLn(v), 2)), FAdd(FMulInt(FLn(r), 4), FSub(FDiv(FInt(4), r), FInt(3))))
SpeedAt(r) ==
  LET lo0 == IF FLe(r, FOne) THEN FTiny(1, 12) ELSE FOne
      hi0 == IF FLe(r, FOne) THEN FOne ELSE FInt(20)
      step(b, k) == LET m == FDivInt(FAdd(b[1], b[2]), 2)
                        up == IF FLe(r, FOne) THEN FLt(FZero, Bis(m, r)) ELSE FLt(Bis(m, r), FZero)
                    IN IF up THEN <<m, b[2]>> ELSE <<b[1], m>>
      b == FoldLeft(step, <<lo0, hi0>>, [k \in 1..70 |-> k])
  IN FDivInt(FAdd(b[1], b[2]), 2)
=============================================================================
