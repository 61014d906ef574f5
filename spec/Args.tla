---------------------------------- MODULE Args ----------------------------------
(***************************************************************************)
(* The command line of every command: words are read from left to right.   *)
(* Asking for the version or for help ends the run at once, and so does a  *)
(* value of the wrong type; unknown words, no input file or a third file   *)
(* refuse the run after all words are read.  The last of -q and -v counts. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Words == {"quiet", "verbose", "debug", "version", "help", "unknown", "bad", "file"}
Start == [out |-> "", level |-> "info", debug |-> FALSE, files |-> 0, stray |-> FALSE]
Read(s, w) ==
  IF s.out # "" THEN s
  ELSE CASE w = "quiet" -> [s EXCEPT !.level = "warning"]
         [] w = "verbose" -> [s EXCEPT !.level = "debug"]
         [] w = "debug" -> [s EXCEPT !.debug = TRUE]
         [] w \in {"version", "help"} -> [s EXCEPT !.out = w]
         [] w = "bad" -> [s EXCEPT !.out = "usage"]
         [] w = "unknown" -> [s EXCEPT !.stray = TRUE]
         [] w = "file" -> [s EXCEPT !.files = s.files + 1]
Close(s) == IF s.out # "" THEN s
            ELSE IF s.stray \/ s.files \notin 1..2 THEN [s EXCEPT !.out = "usage"] ELSE [s EXCEPT !.out = "runs"]
Meaning(ws) == Close(FoldLeft(Read, Start, ws))
ExitOf(out) == IF out = "usage" THEN 2 ELSE 0
(* file names stand together *)
Together(ws) == \A i, j \in 1..Len(ws) : ws[i] = "file" /\ ws[j] = "file" => \A k \in i..j : ws[k] = "file"
=============================================================================
