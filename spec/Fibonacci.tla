------------------------------- MODULE Fibonacci -------------------------------
(***************************************************************************)
(* The Fibonacci sphere of n points: point k (from 0) is on the middle of  *)
(* the k-th of n bands of equal area counted along y, at azimuth a_k       *)
(* measured from x towards z; a_k = ((k + 1) mod n) golden angles.         *)
(***************************************************************************)
EXTENDS Geometry
Golden == FMul(FPi, FSub(FInt(3), FSqrt(FInt(5))))
MidBand(n, k) == FRat(2 * k + 1 - n, n)
OffAxis(n, k) == FSqrt(FSub(FOne, FSq(MidBand(n, k))))
PointAt(n, k, azi) == LET cs == FCosSin(azi) IN <<FMul(cs[1], OffAxis(n, k)), MidBand(n, k), FMul(cs[2], OffAxis(n, k))>>
Fib(n, k) == PointAt(n, k, FMulInt(Golden, (k + 1) % n))
(* point b is point a's azimuth turned by g, on its own band *)
Turned(a, b, ra, rb, g, tol) ==
  LET cs == FCosSin(g)
      x == FSub(FMul(a[1], cs[1]), FMul(a[3], cs[2]))
      z == FAdd(FMul(a[1], cs[2]), FMul(a[3], cs[1]))
  IN FNear(FMul(b[1], ra), FMul(x, rb), tol) /\ FNear(FMul(b[3], ra), FMul(z, rb), tol)
=============================================================================
