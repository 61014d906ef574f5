-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* Text of magnetogram files: a line is a tuple of one-character strings.  *)
(* Splitting into fields, and the decimal notation of integers and numbers.*)
(***************************************************************************)
EXTENDS Real, TLC

Digit == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4
      @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
Digits == DOMAIN Digit
Blank == {" ", "\t", "\r", "\f"}

(* fields of a line: maximal runs of non-blank characters *)
Fields(line) ==
  LET step(acc, ch) == IF ch \in Blank
                       THEN (IF acc[2] = <<>> THEN acc ELSE <<Append(acc[1], acc[2]), <<>>>>)
                       ELSE <<acc[1], Append(acc[2], ch)>>
      r == FoldLeft(step, <<<<>>, <<>>>>, line)
  IN IF r[2] = <<>> THEN r[1] ELSE Append(r[1], r[2])

(* An automaton over one field.  st: start sign int point frac e esign exp bad *)
NumState0 == [st |-> "start", neg |-> FALSE, mant |-> BZero, sc |-> 0, eneg |-> FALSE, ex |-> 0, dig |-> 0]
Accum(a, ch) == [a EXCEPT !.mant = BAdd(BMul(a.mant, BFromInt(10)), BFromInt(Digit[ch])), !.dig = a.dig + 1]
NumStep(a, ch) ==
  LET bad == [a EXCEPT !.st = "bad"]
  IN CASE a.st = "bad" -> a
       [] a.st \in {"start", "sign"} /\ ch \in Digits -> [Accum(a, ch) EXCEPT !.st = "int"]
       [] a.st \in {"start", "sign"} /\ ch = "." -> [a EXCEPT !.st = "point"]
       [] a.st = "start" /\ ch \in {"+", "-"} -> [a EXCEPT !.st = "sign", !.neg = (ch = "-")]
       [] a.st = "int" /\ ch \in Digits -> Accum(a, ch)
       [] a.st = "int" /\ ch = "." -> [a EXCEPT !.st = "frac"]
       [] a.st \in {"point", "frac"} /\ ch \in Digits -> [Accum(a, ch) EXCEPT !.st = "frac", !.sc = a.sc + 1]
       [] a.st \in {"int", "frac"} /\ ch \in {"e", "E"} -> [a EXCEPT !.st = "e"]
       [] a.st = "e" /\ ch \in {"+", "-"} -> [a EXCEPT !.st = "esign", !.eneg = (ch = "-")]
       [] a.st \in {"e", "esign", "exp"} /\ ch \in Digits -> [a EXCEPT !.st = "exp", !.ex = a.ex * 10 + Digit[ch]]
       [] OTHER -> bad
Scan(f) == FoldLeft(NumStep, NumState0, f)
IsIntField(f) == Scan(f).st = "int"
IsNumField(f) == Scan(f).st \in {"int", "frac", "exp"}

RECURSIVE SmallInt(_, _)
SmallInt(ds, acc) == IF ds = <<>> THEN acc ELSE SmallInt(Tail(ds), acc * 10 + Digit[Head(ds)])
IntOf(f) == IF f[1] = "-" THEN -SmallInt(Tail(f), 0)
            ELSE IF f[1] = "+" THEN SmallInt(Tail(f), 0) ELSE SmallInt(f, 0)
(* value of a number field as a fixed-point real, in units of 2^(-15 UnitLimbs) *)
UnitLimbs == 0
TinyUnit == 68            \* replaces UnitLimbs where a configuration says so: 2^-1020
NumOf(f) ==
  LET s == Scan(f)
      e == (IF s.eneg THEN -s.ex ELSE s.ex) - s.sc
      v == IF e >= 0 THEN BMul(BShl(s.mant, FL + UnitLimbs), Pow10(e)) ELSE BQuo(BShl(s.mant, FL + UnitLimbs), Pow10(-e))
  IN IF s.neg THEN BNeg(v) ELSE v

(* A data row: first four fields are integer integer number number *)
IsRow(fs) == Len(fs) >= 4 /\ IsIntField(fs[1]) /\ IsIntField(fs[2]) /\ IsNumField(fs[3]) /\ IsNumField(fs[4])
Row(fs) == [l |-> IntOf(fs[1]), m |-> IntOf(fs[2]), v |-> <<NumOf(fs[3]), NumOf(fs[4])>>]
=============================================================================
