------------------------------- MODULE MagFile -------------------------------
(***************************************************************************)
(* Reading a magnetogram file as a machine that consumes one line at a     *)
(* time.  State: the groups read so far (each a coefficient set of width   *)
(* 1) and whether a row was impossible.                                    *)
(***************************************************************************)
EXTENDS Container

Start == [groups |-> <<Empty(<<CZero>>)>>, failed |-> FALSE]
LastGroup(rd) == rd.groups[Len(rd.groups)]

TakeRow(rd, l, m, v) ==
  IF rd.failed \/ AbsI(m) > l THEN [rd EXCEPT !.failed = TRUE]
  ELSE IF Has(LastGroup(rd), l, m)
       THEN [rd EXCEPT !.groups = Append(rd.groups, Put(Empty(<<CZero>>), l, m, <<v>>))]
       ELSE [rd EXCEPT !.groups[Len(rd.groups)] = Put(LastGroup(rd), l, m, <<v>>)]
TakeJunk(rd) == rd
Outcome(rd) == HStack(rd.groups)
=============================================================================
