------------------------------ MODULE BigIntCheck ------------------------------
(***************************************************************************)
(* Compares the Java implementations of the operators of BigInt with their *)
(* TLA+ definitions (BigIntPlain, the same text, is not overridden).  The  *)
(* operands walk over integers whose limbs are at the edges of their range.*)
(***************************************************************************)
EXTENDS BigInt, TLC
CONSTANTS Limbs, Longest
P == INSTANCE BigIntPlain
VARIABLES x, y
bvars == <<x, y>>
Extend(a, s, d) == IF a = BZero THEN (IF d = 0 THEN BZero ELSE <<s, d>>) ELSE Append(a, d)
Grown(a) == IF Len(a) > Longest THEN {} ELSE {b \in {Extend(a, s, d) : s \in {-1, 1}, d \in Limbs} : b = BZero \/ b[Len(b)] # 0}
             \cup {Append(Append(a, 0), d) : d \in IF a = BZero \/ Len(a) + 1 > Longest THEN {} ELSE Limbs \ {0}}
Init == x = BZero /\ y = BZero
Next == (x' \in Grown(x) /\ y' = y) \/ (y' \in Grown(y) /\ x' = x)
Spec == Init /\ [][Next]_bvars
Same2 == /\ BAdd(x, y) = P!BAdd(x, y) /\ BSub(x, y) = P!BSub(x, y) /\ BMul(x, y) = P!BMul(x, y)
         /\ BCmp(x, y) = P!BCmp(x, y)
         /\ \A n \in {0, 1, 2, 6} : BMulShr(x, y, n) = P!BMulShr(x, y, n)
         /\ y # BZero => /\ BQuo(x, y) = P!BQuo(x, y)
                         /\ \A n \in {0, 1, 2, 6} : BShlQuo(x, y, n) = P!BShlQuo(x, y, n)
Same1 == /\ BNeg(x) = P!BNeg(x) /\ BAbs(x) = P!BAbs(x)
         /\ \A n \in 0..4 : BShl(x, n) = P!BShl(x, n) /\ BShr(x, n) = P!BShr(x, n)
         /\ BSqrt(BAbs(x)) = P!BSqrt(P!BAbs(x)) /\ BSqrt(BShl(BAbs(x), 6)) = P!BSqrt(P!BShl(P!BAbs(x), 6))
Small == \A n \in {0, 1, -1, 32767, 32768, -32768, 1073741824, 2147483647, -2147483647} : BFromInt(n) = P!BFromInt(n)
(* the definitions themselves *)
Ring == /\ BAdd(x, y) = BAdd(y, x) /\ BMul(x, y) = BMul(y, x) /\ BSub(BAdd(x, y), y) = x
        /\ BMul(x, BAdd(y, x)) = BAdd(BMul(x, y), BMul(x, x)) /\ BCmp(x, y) = -BCmp(y, x)
Division == y # BZero => LET q == BQuo(x, y)
                             r == BSub(x, BMul(q, y))
                         IN BCmp(BAbs(r), BAbs(y)) < 0 /\ (r = BZero \/ r[1] = x[1])
Root == LET s == BSqrt(BAbs(x)) IN BCmp(BMul(s, s), BAbs(x)) <= 0 /\ BCmp(BMul(BAdd(s, BFromInt(1)), BAdd(s, BFromInt(1))), BAbs(x)) > 0
=============================================================================
