--------------------------------- MODULE ArgsMC ---------------------------------
EXTENDS Args, TLC, Json
CONSTANTS Depth, Emit
VARIABLES line, st
avars == <<line, st>>
Init == line = <<>> /\ st = Start
Next == /\ Len(line) < Depth
        /\ \E w \in Words : line' = Append(line, w) /\ st' = Read(st, w) /\ Together(line')
        /\ (Emit => PrintT("BEH " \o ToJson(line')))
Spec == Init /\ [][Next]_avars
Agrees == Close(st) = Meaning(line)
(* files change only if the command runs; that takes an input and no word asking for something else *)
RunsOnly == Meaning(line).out = "runs" =>
              \A k \in 1..Len(line) : line[k] \in {"quiet", "verbose", "debug", "file"}
Without(ws, S) == SelectSeq(ws, LAMBDA w : w \notin S)
(* how loud the run is makes no difference to what it does *)
LevelApart == Meaning(Without(line, {"quiet", "verbose"})) = [Meaning(line) EXCEPT !.level = "info"]
FirstEnds == \A k \in 1..Len(line) : line[k] \in {"version", "help", "bad"} /\ (\A j \in 1..(k - 1) : line[j] \notin {"version", "help", "bad"})
                => Meaning(line).out = IF line[k] = "bad" THEN "usage" ELSE line[k]
LastLevel == Meaning(line).out \in {"runs"} =>
  Meaning(line).level = LET r == Without(line, Words \ {"quiet", "verbose"})
                        IN IF r = <<>> THEN "info" ELSE IF r[Len(r)] = "quiet" THEN "warning" ELSE "debug"
(* an ended reading stays as it is *)
Stays == [][st.out # "" => st'.out = st.out]_avars
=============================================================================
