----------------------------- MODULE MagFileTrace -----------------------------
(***************************************************************************)
(* Judges reads and writes of the real code (C05, C06) and output files of *)
(* the converter command (C07) from the text of the files.                 *)
(***************************************************************************)
EXTENDS MagText, CaseRun

KeySet(sn) == {sn.k[i] : i \in 1..Len(sn.k)}
SetClauses(want, sn, tol) ==
  (IF KeySet(sn) # Keys(want) \/ Len(sn.k) # Size(want) THEN {"pairs"}
   ELSE IF \E i \in 1..Len(sn.k) : ~VNearRel(want.c[sn.k[i]], sn.v[i], tol) THEN {"values"} ELSE {})
  \cup (IF Len(sn.d) # Width(want) THEN {"components"} ELSE {})
  \cup (IF sn.lmax # DegreeMax(want) \/ sn.mmin # OrderMin(want) \/ sn.size # Size(want) THEN {"extents"} ELSE {})

(* ---- C05 ------------------------------------------------------------------ *)
ReadClauses(c) ==
  LET rd == ReadText(c.text)
  IN IF rd.failed THEN (IF c.ok THEN {"impossible-row-accepted"} ELSE {})
     ELSE IF ~c.ok THEN {"refused:" \o c.err}
     ELSE SetClauses(Outcome(rd), c.res, Exactly)

(* ---- C06 ------------------------------------------------------------------ *)
AsSet(sn) == [d |-> sn.d, c |-> [k \in KeySet(sn) |-> sn.v[CHOOSE i \in 1..Len(sn.k) : sn.k[i] = k]]]
RowsPerGroup(want) == Size(want)
(* the SWMF header: five lines, the counts on the third and fourth *)
HeaderCounts(lines, want, L) ==
  /\ Len(lines) >= 5
  /\ \A i \in 1..5 : ~IsRow(Fields(lines[i]))
  /\ LET f3 == Fields(lines[3]) f4 == Fields(lines[4])
     IN /\ Len(f3) >= 2 /\ IsIntField(f3[1]) /\ IntOf(f3[1]) = RowsPerGroup(want)
        /\ Len(f4) >= 1 /\ IsIntField(f4[1]) /\ IntOf(f4[1]) = L
  /\ IsRow(Fields(lines[6]))
SwmfHeader(lines) ==
  Len(lines) >= 5 /\ Fields(lines[2]) = <<<<"0">>, <<"0", ".", "0">>, <<"-", "2">>, <<"3">>, <<"2">>>>
HeaderClauses(lines, want, L, swmf) ==
  IF swmf THEN (IF HeaderCounts(lines, want, L) /\ SwmfHeader(lines) THEN {} ELSE {"header"})
  ELSE (IF SwmfHeader(lines) THEN {"unwanted-header"} ELSE {})
WriteClauses(c) ==
  LET s == AsSet(c.set)
      L == IF c.L < 0 THEN DegreeMax(s) ELSE c.L
      want == WrittenSet(s, L, c.mmin)
  IN BodyClauses(c.text, want, Seven)
     \cup HeaderClauses(c.text, want, L, c.swmf)
     \cup (IF ~c.ok THEN {"unreadable"} ELSE SetClauses(want, c.res, Seven))

(* ---- C07 ------------------------------------------------------------------ *)
CliClauses(c) ==
  LET rd == ReadText(c.input)
      s == Outcome(rd)
      refuse == rd.failed \/ (c.mode # "forward" /\ Width(s) # 1)
      L == IF c.L < 0 THEN DegreeMax(s) ELSE c.L
      nn == [s EXCEPT !.c = [k \in {k \in Keys(s) : k[2] >= 0} |-> s.c[k]]]  \* orders written
      conv == Converted(nn, c.mode)
      want == WrittenSet(conv, L, 0)
  IN IF refuse THEN (IF c.ok THEN {"not-refused"} ELSE {})
     ELSE IF ~c.ok THEN {"failed:" \o c.err}
     ELSE BodyClauses(c.text, want, Seven)
          \cup HeaderClauses(c.text, want, L, c.header /\ c.mode # "reverse")

Chk(c) == CASE c.op = "read" -> ReadClauses(c)
            [] c.op = "write" -> WriteClauses(c)
            [] c.op = "cli" -> CliClauses(c)
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
