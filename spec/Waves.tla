---------------------------------- MODULE Waves ----------------------------------
(***************************************************************************)
(* Two waves running against each other, r cos(x + a) and s cos(b - x),    *)
(* make one, t cos(x + g); likewise with sines.                            *)
(***************************************************************************)
EXTENDS Real
Cos(x) == FCosSin(x)[1]
Sin(x) == FCosSin(x)[2]
CosSum(r, a, s, b, x) == FAdd(FMul(r, Cos(FAdd(x, a))), FMul(s, Cos(FSub(b, x))))
SinSum(r, a, s, b, x) == FAdd(FMul(r, Sin(FAdd(x, a))), FMul(s, Sin(FSub(b, x))))
Sum(kind, r, a, s, b, x) == IF kind = "cos" THEN CosSum(r, a, s, b, x) ELSE SinSum(r, a, s, b, x)
One(kind, t, g, x) == FMul(t, IF kind = "cos" THEN Cos(FAdd(x, g)) ELSE Sin(FAdd(x, g)))
(* a wave is known by its values at two phases a quarter turn apart *)
Quarter == FDivInt(FPi, 2)
(* the amplitude: law of cosines with the angle between the two phasors *)
Amp2(kind, r, a, s, b) ==
  LET cross == FMulInt(FMul(FMul(r, s), Cos(FAdd(a, b))), 2)
  IN IF kind = "cos" THEN FAdd(FAdd(FSq(r), FSq(s)), cross) ELSE FSub(FAdd(FSq(r), FSq(s)), cross)
=============================================================================
