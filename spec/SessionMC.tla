-------------------------------- MODULE SessionMC --------------------------------
(***************************************************************************)
(* The session with an implementation underneath: calls may be answered    *)
(* from a table filled by earlier calls, callers overwrite the arrays they *)
(* were given.  Keyed by the whole call and handing out copies, the table  *)
(* never shows (refinement of Session); KeyOf and Shares let the model     *)
(* check show what happens otherwise (SessionBad1, SessionBad2).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS KeyMode, Shares, Depth
Grids == {1, 2}
Args == {1, 2}
AllCalls == [f : {"eval", "draw"}, grid : Grids, arg : Args]
FreshOf(c) == <<c.f, c.grid, c.arg>>
Comp == {"figure", "random", "cwd"}
May(c) == IF c.f = "draw" THEN {"figure"} ELSE {}
KeyOf(c) == IF KeyMode = "whole" THEN <<c.f, c.grid, c.arg>> ELSE <<c.f, c.arg>>
Keys == {KeyOf(c) : c \in AllCalls}
Junk == <<"junk", 0, 0>>
VARIABLES shared, answers, table, given
vars == <<shared, answers, table, given>>
S == INSTANCE Session WITH Calls <- AllCalls, Fresh <- FreshOf, Components <- Comp, MayChange <- May
Init == S!SessionInit /\ table = [k \in Keys |-> <<>>] /\ given = <<>>
Do(c) ==
  LET k == KeyOf(c)
      a == IF table[k] # <<>> THEN table[k] ELSE FreshOf(c)
  IN /\ Len(answers) < Depth
     /\ table' = [table EXCEPT ![k] = a]
     /\ answers' = Append(answers, <<c, a>>)
     /\ given' = k
     /\ shared' = [shared EXCEPT !["figure"] = IF c.f = "draw" THEN @ + 1 ELSE @]
Scribble ==                     \* the caller writes into the last array it got
  /\ given # <<>>
  /\ table' = IF Shares THEN [table EXCEPT ![given] = Junk] ELSE table
  /\ given' = <<>>
  /\ UNCHANGED <<shared, answers>>
Next == (\E c \in AllCalls : Do(c)) \/ Scribble
Spec == Init /\ [][Next]_vars
HistoryFree == \A k \in 1..Len(answers) : answers[k][2] = FreshOf(answers[k][1])
Frame == shared["random"] = 0 /\ shared["cwd"] = 0
Steps == \A i, j \in 1..Len(answers) : answers[i][1] = answers[j][1] => answers[i][2] = answers[j][2]
Refines == [][answers' # answers => \E c \in AllCalls : S!Answer(c, answers'[Len(answers')][2], shared')]_vars
=============================================================================
