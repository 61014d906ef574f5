------------------------------- MODULE BigIntPlain -------------------------------
(***************************************************************************)
(* The definitions of BigInt.tla under a name that nothing                      *)
(*                                                                         *)
(* An integer is <<s, d1, ..., dn>>: s in {-1, 0, 1} is the sign and       *)
(* d1..dn (least significant first) are the limbs in base 2^15, dn # 0.    *)
(* Zero is <<0>>.  Every operator below has a plain TLA+ definition that   *)
(* TLC can evaluate (limb products stay below 2^31); BigIntOverrides.java  *)
(* overrides them with java.math.BigInteger for speed, in the way TLC's    *)
(* own Integers module is overridden.  BigIntCheck.tla checks the          *)
(* override against these definitions.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 32768

(* ---- magnitudes: sequences of limbs, least significant first ---------- *)
MLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE MTrim(_)
MTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN MTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
MMax(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF MLimb(a, i) > MLimb(b, i) THEN 1
                     ELSE IF MLimb(a, i) < MLimb(b, i) THEN -1
                     ELSE MCmpFrom(a, b, i - 1)
MCmp(a, b) == MCmpFrom(a, b, MMax(a, b))

RECURSIVE MAddFrom(_, _, _, _)
MAddFrom(a, b, i, c) ==
  IF i > MMax(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == MLimb(a, i) + MLimb(b, i) + c
       IN  <<t % Base>> \o MAddFrom(a, b, i + 1, t \div Base)
MAdd(a, b) == MAddFrom(a, b, 1, 0)

RECURSIVE MSubFrom(_, _, _, _)                          (* needs a >= b    *)
MSubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - MLimb(b, i) - c
       IN  <<t % Base>> \o MSubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
MSub(a, b) == MTrim(MSubFrom(a, b, 1, 0))

RECURSIVE MScaleFrom(_, _, _, _)                        (* k limb, c carry *)
MScaleFrom(a, k, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[i] * k + c
       IN  <<t % Base>> \o MScaleFrom(a, k, i + 1, t \div Base)
MScale(a, k) == MTrim(MScaleFrom(a, k, 1, 0))

RECURSIVE MMul(_, _)
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE MAdd(MScale(b, a[1]),
                        LET r == MMul(Tail(a), b) IN IF r = <<>> THEN r ELSE <<0>> \o r)

MHalf(a) == MTrim([i \in 1..Len(a) |-> a[i] \div 2
                    + (IF i < Len(a) /\ a[i + 1] % 2 = 1 THEN Base \div 2 ELSE 0)])

(* quotient by binary long division *)
RECURSIVE MDivRem(_, _)
MDivRem(a, b) ==                                        (* <<quot, rem>>   *)
  IF MCmp(a, b) < 0 THEN <<<<>>, a>>
  ELSE LET r  == MDivRem(MHalf(a), b)
           q2 == MScale(r[1], 2)
           r2 == MAdd(MScale(r[2], 2), IF a[1] % 2 = 1 THEN <<1>> ELSE <<>>)
       IN  IF MCmp(r2, b) >= 0 THEN <<MAdd(q2, <<1>>), MSub(r2, b)>>
           ELSE <<q2, MTrim(r2)>>

RECURSIVE MSqrt(_)                                      (* floor root      *)
MSqrt(a) == IF a = <<>> THEN <<>>
            ELSE LET s == MScale(MSqrt(MHalf(MHalf(a))), 2)
                     t == MAdd(s, <<1>>)
                 IN  IF MCmp(MMul(t, t), a) <= 0 THEN t ELSE s

(* ---- signed integers --------------------------------------------------- *)
Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
Mag(a) == Tail(a)
Sgn(a) == a[1]

RECURSIVE MFromNat(_)
MFromNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MFromNat(n \div Base)

BZero == <<0>>
BFromInt(n) == IF n < 0 THEN Mk(-1, MFromNat(-n)) ELSE Mk(1, MFromNat(n))
BNeg(a) == <<-a[1]>> \o Tail(a)
BAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a
BAdd(a, b) == IF Sgn(a) = 0 THEN b
              ELSE IF Sgn(b) = 0 THEN a
              ELSE IF Sgn(a) = Sgn(b) THEN Mk(Sgn(a), MAdd(Mag(a), Mag(b)))
              ELSE IF MCmp(Mag(a), Mag(b)) >= 0 THEN Mk(Sgn(a), MSub(Mag(a), Mag(b)))
              ELSE Mk(Sgn(b), MSub(Mag(b), Mag(a)))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == Mk(Sgn(a) * Sgn(b), MMul(Mag(a), Mag(b)))
BCmp(a, b) == IF Sgn(a) # Sgn(b) THEN (IF Sgn(a) > Sgn(b) THEN 1 ELSE -1)
              ELSE Sgn(a) * MCmp(Mag(a), Mag(b))
(* truncating division (towards zero), b # 0 *)
BQuo(a, b) == Mk(Sgn(a) * Sgn(b), MDivRem(Mag(a), Mag(b))[1])
(* drop n limbs, truncating towards zero *)
BShr(a, n) == IF Len(a) - 1 <= n THEN BZero ELSE <<a[1]>> \o SubSeq(a, n + 2, Len(a))
BShl(a, n) == IF Sgn(a) = 0 THEN a ELSE <<a[1]>> \o [i \in 1..n |-> 0] \o Tail(a)
BSqrt(a) == Mk(1, MSqrt(Mag(a)))
(* (a*b) without its n low limbs: the fixed-point product *)
BMulShr(a, b, n) == BShr(BMul(a, b), n)
(* (a * 2^(15n)) / b truncated: the fixed-point quotient *)
BShlQuo(a, b, n) == BQuo(BShl(a, n), b)
=============================================================================
