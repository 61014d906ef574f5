--------------------------------- MODULE Label ---------------------------------
(***************************************************************************)
(* Numbers written on plots.  A text is a tuple of one-character strings.  *)
(* A power-of-ten label contains 10^{e}, perhaps signed; a TeX number is   *)
(* +d.dd or +d.dd \times 10^{e}.                                           *)
(***************************************************************************)
EXTENDS Lexer
Chars(e) ==                                                  \* decimal digits of a natural number
  LET step(acc, k) == IF acc[1] = 0 /\ k > 1 THEN acc
                      ELSE <<acc[1] \div 10, <<(<<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>)[(acc[1] % 10) + 1]>> \o acc[2]>>
  IN FoldLeft(step, <<e, <<>>>>, [k \in 1..9 |-> k])[2]
Signed(e) == IF e < 0 THEN <<"-">> \o Chars(-e) ELSE Chars(e)
PowerText == <<"1", "0", "^", "{">>
Write(neg, e) == <<"$">> \o (IF neg THEN <<"-">> ELSE <<>>) \o PowerText \o Signed(e) \o <<"}", "$">>
ZeroText == <<"0">>

(* first place where 10^{integer} stands: <<start, length>> of the integer, or <<>> *)
Digits1(t) == Len(t) > 0 /\ \A k \in 1..Len(t) : t[k] \in Digits
IntText(t) == Digits1(t) \/ (Len(t) > 1 /\ t[1] \in {"+", "-"} /\ Digits1(Tail(t)))
Ends(t, p) == {q \in p..Len(t) : t[q] = "}" /\ IntText(SubSeq(t, p, q - 1))}
Starts(t) == {p \in 5..Len(t) : SubSeq(t, p - 4, p - 1) = PowerText /\ Ends(t, p) # {}}
Least(s) == CHOOSE x \in s : \A y \in s : x <= y
Exponent(t) == IF Starts(t) = {} THEN <<>> ELSE LET p == Least(Starts(t)) q == Least(Ends(t, p)) IN <<p, q - p>>
Shift(t, s) ==
  LET e == Exponent(t)
  IN IF e = <<>> THEN t
     ELSE SubSeq(t, 1, e[1] - 1) \o Signed(IntOf(SubSeq(t, e[1], e[1] + e[2] - 1)) + s) \o SubSeq(t, e[1] + e[2], Len(t))
(* what a tick label denotes: <<sign, e>> for sign * 10^e, or <<0, 0>> *)
IsTick(t) == t = ZeroText \/ (Exponent(t) # <<>> /\ \E g \in BOOLEAN : Len(t) = Len(Write(g, 0)) - 1 + Exponent(t)[2]
                              /\ t = <<"$">> \o (IF g THEN <<"-">> ELSE <<>>) \o PowerText
                                     \o SubSeq(t, Exponent(t)[1], Exponent(t)[1] + Exponent(t)[2] - 1) \o <<"}", "$">>)
Denoted(t) == IF t = ZeroText THEN <<0, 0>>
              ELSE <<IF t[2] = "-" THEN -1 ELSE 1, IntOf(SubSeq(t, Exponent(t)[1], Exponent(t)[1] + Exponent(t)[2] - 1))>>

(* ticks *)
Steps(lo, hi, st) == FoldLeft(LAMBDA r, k : IF lo + (k - 1) * st <= hi THEN Append(r, lo + (k - 1) * st) ELSE r, <<>>,
                              [k \in 1..(hi - lo + 1) |-> k])
MajorTicks(lo, hi, st) ==
  LET up == FoldLeft(LAMBDA r, e : Append(r, <<1, e>>), <<>>, Steps(lo, hi, st))
      dn == FoldLeft(LAMBDA r, e : <<<<-1, e>>>> \o r, <<>>, Steps(lo, hi, st))
  IN dn \o <<<<0, 0>>>> \o up
(* <<digit (signed), decade>> in increasing order *)
MinorTicks(lo, hi) ==
  LET up == FoldLeft(LAMBDA r, k : FoldLeft(LAMBDA q, d : Append(q, <<d, lo - 2 + k>>), r, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>), <<>>,
                     [k \in 1..(hi - lo + 2) |-> k])
      dn == FoldLeft(LAMBDA r, x : <<<<-x[1], x[2]>>>> \o r, <<>>, up)
  IN dn \o <<<<0, 0>>>> \o up

(* a TeX number: sign, digits with at most one point, perhaps a power of ten *)
TimesText == <<" ", "\\", "t", "i", "m", "e", "s", " ">> \o PowerText
TexSplit(t) ==                                               \* <<number part, exponent>> or <<>>
  LET e == Exponent(t)
  IN IF e = <<>> THEN <<t, 0>>
     ELSE IF e[1] - 1 > Len(TimesText) /\ SubSeq(t, e[1] - Len(TimesText), e[1] - 1) = TimesText /\ e[1] + e[2] = Len(t)
          THEN <<SubSeq(t, 1, e[1] - 1 - Len(TimesText)), IntOf(SubSeq(t, e[1], e[1] + e[2] - 1))>>
          ELSE <<>>
Pow(n) == Pow10(n)
AbsInt(n) == IF n < 0 THEN -n ELSE n
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE DigitsOf(_, _)
DigitsOf(b, n) == IF BCmp(b, Pow10(n)) < 0 THEN n ELSE DigitsOf(b, n + 1)
Significant(m) == LET n == DigitsOf(m, 1) IN n <= 3 \/ BCmp(m, BMul(BQuo(m, Pow10(n - 3)), Pow10(n - 3))) = 0
(* |value| = num / den (big integers); the text denotes it to three significant digits *)
Rounds(num, den, m, x) ==
  IF BCmp(num, BZero) = 0 THEN BCmp(m, BZero) = 0
  ELSE IF BCmp(m, BZero) = 0 THEN FALSE
  ELSE LET E1 == DigitsOf(m, 1) + x - 1
           K == AbsInt(E1) + AbsInt(x) + 6
           v == BMul(num, Pow10(K))                               \* v / (den 10^K) = |value|
           below(E) == BCmp(v, BMul(den, Pow10(K + E))) < 0        \* |value| < 10^E
           E == IF below(E1) THEN E1 - 1 ELSE E1
       IN /\ ~below(E) /\ below(E + 1)
          /\ BCmp(BAbs(BSub(BMul(v, BFromInt(2)), BMul(BMul(m, Pow10(x + K)), BMul(den, BFromInt(2))))),
                  BMul(den, Pow10(K + E - 2))) <= 0
TexDenotes(t, neg, num, den) ==
  LET p == TexSplit(t)
  IN /\ p # <<>>
     /\ IsNumField(p[1])
     /\ LET s == Scan(p[1])
        IN /\ s.st \in {"int", "frac"}
           /\ p[1][1] \in (IF BCmp(num, BZero) = 0 THEN {"-", "+"} ELSE IF neg THEN {"-"} ELSE {"+"})   \* zero has no sign
           /\ Significant(s.mant)
           /\ Rounds(num, den, s.mant, p[2] - s.sc)
=============================================================================
