--------------------------------- MODULE Report ---------------------------------
(***************************************************************************)
(* Printed coefficient sets, ZDI magnetograms and wind solutions.  A text  *)
(* is a tuple of characters ("\n" among them).                             *)
(***************************************************************************)
EXTENDS Label

(* number notations in a text, with a mark for those followed by j *)
Apart == {" ", "\n", "(", ")", "[", "]", ","}
NumTokens(t) ==
  LET flush(a, im) == IF a.cur = <<>> THEN (IF im THEN [a EXCEPT !.bad = TRUE] ELSE a)
                      ELSE [a EXCEPT !.out = Append(a.out, [t |-> a.cur, im |-> im]), !.cur = <<>>]
      step(a, ch) ==
        IF ch \in Apart THEN flush(a, FALSE)
        ELSE IF ch = "j" THEN flush(a, TRUE)
        ELSE IF ch \in {"+", "-"} /\ a.cur # <<>> /\ a.cur[Len(a.cur)] \notin {"e", "E"}
             THEN [flush(a, FALSE) EXCEPT !.cur = <<ch>>]
        ELSE [a EXCEPT !.cur = Append(a.cur, ch)]
      r == flush(FoldLeft(step, [cur |-> <<>>, out |-> <<>>, bad |-> FALSE], t), FALSE)
  IN IF r.bad THEN <<[t |-> <<"j">>, im |-> TRUE]>> ELSE r.out
AllNumbers(toks) == \A k \in 1..Len(toks) : IsNumField(toks[k].t)
(* complex numbers: a real part starts one, an imaginary part completes it or stands alone *)
Complexes(toks) ==
  LET step(a, x) ==
        IF ~x.im THEN [v |-> Append(a.v, <<NumOf(x.t), FZero>>), open |-> TRUE]
        ELSE IF a.open THEN [v |-> [a.v EXCEPT ![Len(a.v)][2] = NumOf(x.t)], open |-> FALSE]
        ELSE [v |-> Append(a.v, <<FZero, NumOf(x.t)>>), open |-> FALSE]
  IN FoldLeft(step, [v |-> <<>>, open |-> FALSE], toks).v

(* "l, m, [values]" entries, or "l, m: values" lines *)
Entries(t, start, stop) ==
  LET Blanks == {" ", "\n"}
      step(a, ch) ==
        CASE a.ph = "l" -> IF ch = "," THEN [a EXCEPT !.ph = "m", !.l = a.cur, !.cur = <<>>]
                           ELSE IF ch \in Blanks THEN a ELSE [a EXCEPT !.cur = Append(a.cur, ch)]
          [] a.ph = "m" -> IF ch = "," \/ ch = start
                           THEN [a EXCEPT !.ph = IF ch = start THEN "v" ELSE "gap", !.m = a.cur, !.cur = <<>>]
                           ELSE IF ch \in Blanks THEN a ELSE [a EXCEPT !.cur = Append(a.cur, ch)]
          [] a.ph = "gap" -> IF ch = start THEN [a EXCEPT !.ph = "v"]
                             ELSE IF ch \in Blanks THEN a ELSE [a EXCEPT !.ph = "bad"]
          [] a.ph = "v" -> IF ch = stop
                           THEN [a EXCEPT !.ph = "l", !.cur = <<>>, !.out = Append(a.out, [l |-> a.l, m |-> a.m, v |-> a.cur])]
                           ELSE [a EXCEPT !.cur = Append(a.cur, ch)]
          [] OTHER -> a
      r == FoldLeft(step, [ph |-> "l", cur |-> <<>>, l |-> <<>>, m |-> <<>>, out |-> <<>>], t)
  IN [ok |-> r.ph = "l" /\ r.cur = <<>> /\ \A k \in 1..Len(r.out) : IntText(r.out[k].l) /\ IntText(r.out[k].m),
      es |-> r.out]
AfterTitle(t) ==
  LET ends == {k \in 1..Len(t) : t[k] = "\n"}
  IN IF ends = {} THEN <<>> ELSE SubSeq(t, Least(ends) + 1, Len(t))
Bracketed(t) ==                     \* what stands between the first [ and the ] after it
  LET a == {k \in 1..Len(t) : t[k] = "["}
      b == {k \in 1..Len(t) : t[k] = "]" /\ a # {} /\ k > Least(a)}
  IN IF b = {} THEN <<"?">> ELSE SubSeq(t, Least(a) + 1, Least(b) - 1)
(* the number that follows a name and "=" *)
Has(t, p, w) == p + Len(w) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(w) - 1) = w
NumEnd == {" ", ",", "\n"}
ValueAfter(t, name) ==
  LET at == {p \in 1..Len(t) : Has(t, p, Append(name, "=")) /\ (p = 1 \/ t[p - 1] = " ")}
      s == Least(at) + Len(name) + 1
      stop == {q \in s..Len(t) : t[q] \in NumEnd}
  IN IF at = {} THEN <<>> ELSE SubSeq(t, s, IF stop = {} THEN Len(t) ELSE Least(stop) - 1)

(* |value| = num/den denoted to n significant digits by the notation f (no more digits than that) *)
DenotesTo(f, n, num, den) ==
  /\ IsNumField(f)
  /\ LET s == Scan(f)
         x == (IF s.eneg THEN -s.ex ELSE s.ex) - s.sc
         E1 == DigitsOf(s.mant, 1) + x - 1
         K == AbsInt(E1) + AbsInt(x) + n + 4
         v == BMul(num, Pow10(K))
         below(E) == BCmp(v, BMul(den, Pow10(K + E))) < 0
         E == IF below(E1) THEN E1 - 1 ELSE E1
     IN /\ ~s.neg /\ BCmp(s.mant, BZero) > 0 /\ ~below(E) /\ below(E + 1)
        /\ BCmp(BAbs(BSub(BMul(v, BFromInt(2)), BMul(BMul(s.mant, Pow10(x + K)), BMul(den, BFromInt(2))))),
                BMul(den, Pow10(K + E - n + 1))) <= 0

(* writing, for the model: a number is a text already *)
WriteEntry(l, m, vs, start, stop) ==
  Signed(l) \o <<",", " ">> \o Signed(m) \o (IF start = "[" THEN <<",", " ">> ELSE <<>>) \o <<start>>
  \o FoldLeft(LAMBDA r, k : r \o (IF k = 1 THEN <<" ">> ELSE IF start = "[" THEN <<" ">> ELSE <<",", " ">>) \o vs[k], <<>>, [k \in 1..Len(vs) |-> k])
  \o <<stop>>
=============================================================================
