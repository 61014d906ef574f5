---------------------------- MODULE WorkspaceTrace ----------------------------
(***************************************************************************)
(* Judges histories of conversions (C30).  case: sources (name -> text),   *)
(* runs (mode, in, out, lim, ok), files (name -> text, at the end).        *)
(***************************************************************************)
EXTENDS Workspace, CaseRun
SourceSets(c) == [n \in DOMAIN c.sources |-> Outcome(ReadText(c.sources[n]))]
StatesOf(c) ==          \* the workspace before each run and at the end
  LET S == SourceSets(c)
  IN FoldLeft(LAMBDA acc, r : Append(acc, After(acc[Len(acc)], r)), <<[n \in DOMAIN S |-> FromSource(S, n)]>>, c.runs)
Text(c, n) == c.files[n]
Chk(c) ==
  LET S == SourceSets(c)
      st == StatesOf(c)
      N == Len(c.runs)
      fin == st[N + 1]
      tol == FMulInt(Seven, N + 1)
  IN UNION {LET r == c.runs[i] IN
              IF Refused(st[i], r) THEN (IF r.ok THEN {"not-refused"} ELSE {}) ELSE (IF r.ok THEN {} ELSE {"failed"}) : i \in 1..N}
     \cup (IF DOMAIN c.files = Files(fin) THEN {} ELSE {"files"})
     \cup UNION {IF fin[n].given THEN (IF Text(c, n) = c.sources[n] THEN {} ELSE {"source-changed"})
                 ELSE BodyClauses(Text(c, n), Meaning(S, fin[n]), tol) : n \in Files(fin) \cap DOMAIN c.files}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
