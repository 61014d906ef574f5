------------------------------- MODULE CaseRun -------------------------------
(***************************************************************************)
(* Judging observations of the real code.  The harness writes one JSON     *)
(* record per case (file named by the environment variable TRACE); TLC     *)
(* picks every case, evaluates the specification's Chk(case) (the set of   *)
(* names of violated clauses) and moves to a verdict state.  Failing cases *)
(* are printed for the driver.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES case, verdict
runvars == <<case, verdict>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
RunInit == case \in 1..Len(Cases) /\ verdict = "pending"
RunNext(Chk(_)) ==
  /\ verdict = "pending"
  /\ LET c == Cases[case]
         (* anomalies the harness met while calling the code (exception, shape, type) *)
         f == IF c.bad # <<>> THEN {c.bad[k] : k \in 1..Len(c.bad)} ELSE Chk(c)
     IN /\ verdict' = IF f = {} THEN "conforms" ELSE "violates"
        /\ IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> c.id, clauses |-> f]))
  /\ UNCHANGED case
=============================================================================
