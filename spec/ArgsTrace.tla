-------------------------------- MODULE ArgsTrace --------------------------------
(***************************************************************************)
(* Judges command lines (C34).  case: words; code (exit code, 0 if main    *)
(* returned); told (texts recognised on the output: "version", "help",     *)
(* "usage"); level (numeric, of the package's logger; it was 37 before),   *)
(* stops (times the debugger was called), wrote (names of files changed),  *)
(* asked (the files that command writes), same (they hold what the same    *)
(* run without -q, -v, --debug wrote), below (records sent below the level)*)
(***************************************************************************)
EXTENDS Args, CaseRun
LevelNumber(n) == CASE n = "info" -> 20 [] n = "warning" -> 30 [] n = "debug" -> 10
AsSet(q) == {q[k] : k \in 1..Len(q)}
Chk(c) ==
  LET s == Meaning(c.words)
  IN (IF c.code = ExitOf(s.out) THEN {} ELSE {"exit-code"})
     \cup (IF s.out = "runs" THEN
             (IF AsSet(c.wrote) = AsSet(c.asked) THEN {} ELSE {"files-written"})
             \cup (IF c.same THEN {} ELSE {"result-differs"})
             \cup (IF c.level = LevelNumber(s.level) THEN {} ELSE {"log-level"})
             \cup (IF c.below = 0 THEN {} ELSE {"logged-below-level"})
             \cup (IF c.stops = (IF s.debug THEN 1 ELSE 0) THEN {} ELSE {"debugger"})
           ELSE (IF c.wrote = <<>> THEN {} ELSE {"files-changed"})
                \cup (IF s.out \in AsSet(c.told) THEN {} ELSE {"not-told"})
                \cup (IF c.stops = 0 THEN {} ELSE {"debugger"}))
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
