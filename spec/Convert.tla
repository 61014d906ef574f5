------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* Conversion between the ZDI and the PFSS (WSO/Stanford) coefficient      *)
(* conventions, on coefficient sets over fixed-point reals.                *)
(***************************************************************************)
EXTENDS Container, Real

DefaultRss == FRat(5, 2)             \* source surface radius in stellar radii

(* (-1)^m sqrt((2l+1) / (4 pi (2 - [m=0]))) *)
Factor(l, m) ==
  LET den == FMulInt(FPi, 4 * (IF m = 0 THEN 1 ELSE 2))
      f == FSqrt(FDiv(FInt(2 * l + 1), den))
  IN IF m % 2 = 0 THEN f ELSE FNeg(f)

(* radial function of the potential at the stellar surface, times l + 1:    *)
(* (1 - q) (l+1) / (l + 1 + l q) with q = (1/rss)^(2l+1)                    *)
SurfaceRatio(l, rss) ==
  LET q == FDiv(FOne, FPow(rss, 2 * l + 1))
  IN FDiv(FMulInt(FSub(FOne, q), l + 1), FAdd(FInt(l + 1), FMulInt(q, l)))

ZdiToPfss(s) == Scaled(s, [k \in Keys(s) |-> <<Factor(k[1], k[2]), FZero>>])
PfssToZdi(s) ==
  LET a == Scaled(s, [k \in Keys(s) |-> <<FDiv(FOne, Factor(k[1], k[2])), FZero>>])
      b == Scaled(a, [k \in Keys(s) |-> <<SurfaceRatio(k[1], DefaultRss), FZero>>])
  IN HStack(<<a, b, ZerosLike(a)>>)
=============================================================================
