------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* A pool of spherical-harmonic coefficient sets and everything a user can *)
(* do with it: the abstract machine behind properties C01-C04.             *)
(*                                                                         *)
(* A coefficient set is a value [d, c]: d is the default (a tuple of       *)
(* complex numbers; its length is the width of the set), c a function from *)
(* the stored <<degree, order>> pairs to tuples of complex numbers.        *)
(* A pool is a sequence of such values (index = handle).  Operations are   *)
(* pure functions of values: they never change an operand; only a store    *)
(* changes a handle, and only its own.                                     *)
(*                                                                         *)
(* The number type is a parameter (small integers for model checking,      *)
(* fixed-point reals for judging traces of the real code).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NAdd(_, _), NMul(_, _), NNeg(_), NZero, NOne

(* ---- complex numbers <<re, im>> and tuples of them -------------------- *)
CZero == <<NZero, NZero>>
COne == <<NOne, NZero>>
CAdd(a, b) == <<NAdd(a[1], b[1]), NAdd(a[2], b[2])>>
CNeg(a) == <<NNeg(a[1]), NNeg(a[2])>>
CMul(a, b) == <<NAdd(NMul(a[1], b[1]), NNeg(NMul(a[2], b[2]))),
                NAdd(NMul(a[1], b[2]), NMul(a[2], b[1]))>>
RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN COne ELSE CMul(a, CPow(a, n - 1))

VMap(F(_), v) == [i \in 1..Len(v) |-> F(v[i])]
VZip(F(_, _), u, v) == [i \in 1..Len(u) |-> F(u[i], v[i])]
VAdd(u, v) == VZip(CAdd, u, v)
VMulV(u, v) == VZip(CMul, u, v)
VMulC(u, z) == [i \in 1..Len(u) |-> CMul(u[i], z)]
VPow(u, n) == [i \in 1..Len(u) |-> CPow(u[i], n)]
VZeros(w) == [i \in 1..w |-> CZero]

(* ---- coefficient sets -------------------------------------------------- *)
Empty(d) == [d |-> d, c |-> <<>>]              \* <<>> is the function with empty domain
Keys(s) == DOMAIN s.c
Width(s) == Len(s.d)
Get(s, l, m) == IF <<l, m>> \in Keys(s) THEN s.c[<<l, m>>] ELSE s.d
Has(s, l, m) == <<l, m>> \in Keys(s)
Size(s) == Cardinality(Keys(s))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
DegreeMax(s) == MaxOf({0} \cup {k[1] : k \in Keys(s)})
OrderMin(s) == MinOf({0} \cup {k[2] : k \in Keys(s)})
ZeroDefault(s) == s.d = VZeros(Width(s))

AbsI(n) == IF n < 0 THEN -n ELSE n
CanStore(s, l, m, v) == AbsI(m) <= l /\ Len(v) = Width(s)
CanAppend(s, l, m, v) == CanStore(s, l, m, v) /\ ~Has(s, l, m)
Put(s, l, m, v) == [s EXCEPT !.c = (<<l, m>> :> v) @@ s.c]

(* deriving operations *)
Copy(s) == s
EmptyLike(s) == Empty(s.d)
ZerosLike(s) == [s EXCEPT !.c = [k \in Keys(s) |-> s.d]]
Truncated(s, L) == [s EXCEPT !.c = [k \in {k \in Keys(s) : k[1] <= L} |-> s.c[k]]]
Scaled(s, f) == [s EXCEPT !.c = [k \in Keys(s) |-> VMulC(s.c[k], f[k])]]
TimesC(s, z) == [s EXCEPT !.c = [k \in Keys(s) |-> VMulC(s.c[k], z)]]
Power(s, n) == [s EXCEPT !.c = [k \in Keys(s) |-> VPow(s.c[k], n)]]
Union(s, t) == Keys(s) \cup Keys(t)
Add(s, t) == [d |-> s.d, c |-> [k \in Union(s, t) |-> VAdd(Get(s, k[1], k[2]), Get(t, k[1], k[2]))]]
Sub(s, t) == Add(s, TimesC(t, CNeg(COne)))
Times(s, t) == [d |-> s.d, c |-> [k \in Union(s, t) |-> VMulV(Get(s, k[1], k[2]), Get(t, k[1], k[2]))]]

RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))
HStack(ss) ==
  [d |-> ConcatAll([i \in 1..Len(ss) |-> ss[i].d]),
   c |-> [k \in UNION {Keys(ss[i]) : i \in 1..Len(ss)} |->
            ConcatAll([i \in 1..Len(ss) |-> Get(ss[i], k[1], k[2])])]]
(* cuts: increasing positions 0 = p0 < p1 < ... < pn = width *)
HSplit(s, cuts) ==
  [i \in 1..Len(cuts) - 1 |->
     [d |-> SubSeq(s.d, cuts[i] + 1, cuts[i + 1]),
      c |-> [k \in Keys(s) |-> SubSeq(s.c[k], cuts[i] + 1, cuts[i + 1])]]]
EachCut(s) == [i \in 1..Width(s) + 1 |-> i - 1]

(* enumeration: increasing degree, then order *)
KeyLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
IsEnumeration(seq, S) ==
  /\ Len(seq) = Cardinality(S)
  /\ \A i \in 1..Len(seq) : seq[i] \in S
  /\ \A i \in 1..Len(seq) - 1 : KeyLess(seq[i], seq[i + 1])
Requested(lmin, lmax, mmin, mmax) ==
  {<<l, m>> \in (lmin..lmax) \X (-lmax..lmax) : AbsI(m) <= l /\ mmin <= m /\ m <= mmax}
EnumSet(s, unset, lmin, lmax, mmin, mmax) ==
  LET R == Requested(lmin, lmax, mmin, mmax)
  IN IF unset THEN R ELSE R \cap Keys(s)

FromArrays(w, ks, vs) ==
  [d |-> VZeros(w), c |-> [k \in {ks[i] : i \in 1..Len(ks)} |-> vs[CHOOSE i \in 1..Len(ks) : ks[i] = k]]]
NoRepeats(ks) == \A i, j \in 1..Len(ks) : ks[i] = ks[j] => i = j
=============================================================================
