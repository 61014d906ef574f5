-------------------------------- MODULE ReportMC --------------------------------
(* Reading back what is written: entries, complex numbers in all their notations, values after names. *)
EXTENDS Report
CONSTANTS Dummy
VARIABLES doc, style
mcvars == <<doc, style>>
NumTexts == {<<"0", ".">>, <<"-", "0", ".">>, <<"1", ".", "5">>, <<"-", "2", ".", "5", "e", "-", "0", "3">>, <<"1", "e", "+", "2", "0">>}
ImTexts == {<<"+", "0", ".">>, <<"-", "4", ".", "2", "5">>, <<"+", "1", ".", "e", "-", "0", "5">>}
Vals == {<<r, i>> : r \in NumTexts, i \in ImTexts}
Pairs == {<<0, 0>>, <<2, -1>>, <<13, 7>>}
Init == doc = <<>> /\ style \in {"[", ":"}
Next == /\ Len(doc) < 2 /\ UNCHANGED style
        /\ \E p \in Pairs, v \in Vals, w \in {<<<<"1", ".">>, <<"-", "1", ".">>>>, <<>>} :
             doc' = Append(doc, [p |-> p, v |-> IF w = <<>> THEN <<v>> ELSE <<v, w>>])
Spec == Init /\ [][Next]_mcvars
Nota(v, k) == CASE k % 3 = 0 -> v[1] \o v[2] \o <<"j">> [] k % 3 = 1 -> <<"(">> \o v[1] \o v[2] \o <<"j", ")">>
                [] OTHER -> v[1] \o <<" ", " ">> \o v[2] \o <<"j">>
Text(d, s, k) == FoldLeft(LAMBDA r, e : r \o WriteEntry(e.p[1], e.p[2], [i \in 1..Len(e.v) |-> Nota(e.v[i], IF s = "[" THEN 2 * k ELSE 1)],
                                       s, IF s = "[" THEN "]" ELSE "\n") \o (IF s = "[" THEN <<"\n">> ELSE <<>>), <<>>, d)
ReadBack == \A k \in {0, 1} :
  LET r == Entries(Text(doc, style, k), style, IF style = "[" THEN "]" ELSE "\n")
  IN /\ r.ok /\ Len(r.es) = Len(doc)
     /\ \A i \in 1..Len(doc) :
          /\ IntOf(r.es[i].l) = doc[i].p[1] /\ IntOf(r.es[i].m) = doc[i].p[2]
          /\ AllNumbers(NumTokens(r.es[i].v))
          /\ Complexes(NumTokens(r.es[i].v)) = [j \in 1..Len(doc[i].v) |-> <<NumOf(doc[i].v[j][1]), NumOf(doc[i].v[j][2])>>]
OnlyImaginary == Complexes(NumTokens(<<"2", "j">>)) = <<<<FZero, FInt(2)>>>>
NoStray == ~AllNumbers(NumTokens(<<"1", " ", "j">>))
Wind == <<"P", " ", "R", "h", "o", "_", "c", "=", "1", ".", "5", "E", "-", "1", "1", " ", "k", ",", " ", "R", "=", "7", ".", "2", "E", "+", "0", "8", ",", " ", "M", "=", "2", "E", "+", "3", "0", ",">>
NamedValues == /\ ValueAfter(Wind, <<"R">>) = <<"7", ".", "2", "E", "+", "0", "8">>
               /\ ValueAfter(Wind, <<"M">>) = <<"2", "E", "+", "3", "0">>
               /\ ValueAfter(Wind, <<"X">>) = <<>>
               /\ DenotesTo(<<"7", ".", "2", "E", "+", "0", "8">>, 2, BFromInt(724999999), BFromInt(1))
               /\ ~DenotesTo(<<"7", ".", "2", "E", "+", "0", "8">>, 2, BFromInt(725100000), BFromInt(1))
               /\ DenotesTo(<<"1", "E", "+", "0", "2">>, 2, BMul(BFromInt(996), BFromInt(1)), BFromInt(10))
               /\ ~DenotesTo(<<"1", "E", "+", "0", "2">>, 2, BFromInt(990), BFromInt(10))
=============================================================================
