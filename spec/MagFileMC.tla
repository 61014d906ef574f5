------------------------------ MODULE MagFileMC ------------------------------
EXTENDS MagFile, Json
CONSTANTS Depth, RowPairs, Junk, Emit
VARIABLES rd, lines
vars == <<rd, lines>>
IAdd(a, b) == a + b
IMul(a, b) == a * b
INeg(a) == -a
PairsFull == {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<1, -1>>, <<0, 1>>}
JunkKinds == {"blank", "short", "float-degree", "word"}

Init == rd = Start /\ lines = <<>>
Row(p) == /\ rd' = TakeRow(rd, p[1], p[2], <<Len(lines) + 1, 0>>)
          /\ lines' = Append(lines, [row |-> TRUE, l |-> p[1], m |-> p[2], k |-> ""])
JunkLine(k) == /\ rd' = TakeJunk(rd)
               /\ lines' = Append(lines, [row |-> FALSE, l |-> 0, m |-> 0, k |-> k])
Next == /\ Len(lines) < Depth
        /\ ((\E p \in RowPairs : Row(p)) \/ (\E k \in Junk : JunkLine(k)))
        /\ (Emit /\ Len(lines') = Depth => PrintT("BEH " \o ToJson(lines')))
Spec == Init /\ [][Next]_vars

Rows == SelectSeq(lines, LAMBDA x : x.row)
Bad == \E i \in 1..Len(Rows) : AbsI(Rows[i].m) > Rows[i].l
FailedOK == rd.failed = Bad
(* every row is in exactly one group, with its value; nothing else is *)
RECURSIVE SumSize(_)
SumSize(gs) == IF gs = <<>> THEN 0 ELSE Size(gs[1]) + SumSize(Tail(gs))
Conserved == ~Bad => SumSize(rd.groups) = Len(Rows)
GroupsDistinctStart == \A i \in 2..Len(rd.groups) : Keys(rd.groups[i]) \cap Keys(rd.groups[i - 1]) # {}
WidthOK == Width(Outcome(rd)) = Len(rd.groups)
Missing == LET o == Outcome(rd) IN \A k \in Keys(o) : \A i \in 1..Width(o) :
             (~Has(rd.groups[i], k[1], k[2])) => o.c[k][i] = CZero
JunkIgnored == [][(lines' # lines /\ ~lines'[Len(lines')].row) => rd' = rd]_vars
=============================================================================
