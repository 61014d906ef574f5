------------------------------- MODULE SessionTrace -------------------------------
(***************************************************************************)
(* Judges recorded sessions (C29).  case: fresh = record call -> answer in *)
(* a new process, steps = <<[call, ans, shared]>>, start = shared state at *)
(* the start.  An answer is [txt, num]; the shared state is a record       *)
(* component -> text.  A step conforms if it is Session's Answer.          *)
(***************************************************************************)
EXTENDS Real, CaseRun, FiniteSets
Of(call, family) == \E k \in 1..Len(family) : family[k] = call
Allowed(c, call) ==
  (IF Of(call, c.draws) THEN {"figures"} ELSE {}) \cup (IF Of(call, c.random) THEN {"numpy-random", "python-random"} ELSE {})
  \cup (IF Of(call, c.commands) THEN {"package-log-level"} ELSE {})
Same(a, b) == a.txt = b.txt /\ Len(a.num) = Len(b.num)
              /\ \A k \in 1..Len(a.num) : FNear(a.num[k], b.num[k], FAdd(FTiny(1, 12), FMul(FAbs(a.num[k]), FTiny(1, 9))))
StepClauses(c, k) ==
  LET s == c.steps[k]
      before == IF k = 1 THEN c.start ELSE c.steps[k - 1].shared
  IN (IF Same(c.fresh[s.call], s.ans) THEN {} ELSE {"answer-differs:" \o s.call \o " after " \o (IF k = 1 THEN "-" ELSE c.steps[k - 1].call)})
     \cup {"changed:" \o x \o " by " \o s.call : x \in {y \in DOMAIN before \ Allowed(c, s.call) : s.shared[y] # before[y]}}
Chk(c) == UNION {StepClauses(c, k) : k \in 1..Len(c.steps)}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
