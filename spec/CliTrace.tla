------------------------------- MODULE CliTrace -------------------------------
(* Judges observed runs: case.pre, case.post lists of records, case.run, case.ok *)
EXTENDS Cli, CaseRun
SetOf(s) == {s[i] : i \in 1..Len(s)}
Chk(c) == RunClauses(SetOf(c.pre), c.run, c.ok, SetOf(c.post))
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
