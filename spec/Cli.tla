--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* What one run of the converter command may do to the file system.        *)
(* A tree is a set of records: path; kind "file", "link" or "dir"; for     *)
(* files the identity (inode) and the contents (an identifier); for links  *)
(* the path they lead to.                                                  *)
(* A run: mode, in and out (the paths named, after removing "." and ".."   *)
(* and directory links), dflt (no output name given; out is then the       *)
(* derived name in the current directory).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

At(tree, p) == {e \in tree : e.path = p}
Exists(tree, p) == At(tree, p) # {}
TheEntry(tree, p) == CHOOSE e \in tree : e.path = p
RECURSIVE Resolve(_, _, _)
Resolve(tree, p, n) ==             \* follow links (n bounds their number)
  IF n = 0 \/ ~Exists(tree, p) THEN p
  ELSE LET e == TheEntry(tree, p) IN IF e.kind = "link" THEN Resolve(tree, e.to, n - 1) ELSE p
Final(tree, p) == Resolve(tree, p, 4)
IsFile(tree, p) == Exists(tree, p) /\ TheEntry(tree, p).kind = "file"
IdOf(tree, p) == IF IsFile(tree, Final(tree, p)) THEN TheEntry(tree, Final(tree, p)).ino ELSE 0
(* all paths naming the file at p *)
Names(tree, p) == IF IdOf(tree, p) = 0 THEN {Final(tree, p)}
                  ELSE {e.path : e \in {x \in tree : x.kind = "file" /\ x.ino = IdOf(tree, p)}}
Changed(pre, post) == {e.path : e \in (pre \ post) \cup (post \ pre)}

InputData(tree, p) == TheEntry(tree, Final(tree, p)).data

(* the clauses a run violates *)
RunClauses(pre, run, ok, post) ==
  LET out == run.out
      may == IF run.dflt THEN {out} ELSE {out, Final(pre, out)} \cup Names(pre, out)
      ch == Changed(pre, post)
  IN (IF ~ok /\ ch # {} THEN {"failed-run-changed-files"} ELSE {})
     \cup (IF IsFile(pre, Final(pre, run.in))
              /\ ~(IsFile(post, Final(post, run.in)) /\ InputData(post, run.in) = InputData(pre, run.in))
           THEN {"input-changed"} ELSE {})
     \cup (IF ok /\ run.dflt /\ Exists(pre, out) THEN {"default-name-existed"} ELSE {})
     \cup (IF ok /\ ch \ may # {} THEN {"other-file-changed"} ELSE {})
     \cup (IF ok /\ ~IsFile(post, Final(post, out)) THEN {"no-output"} ELSE {})

(* one way to carry out a run: write through links, in place *)
Write(tree, p, d, fresh) ==
  LET q == Final(tree, p)
  IN IF IsFile(tree, q)
     THEN {IF e.kind = "file" /\ e.ino = IdOf(tree, q) THEN [e EXCEPT !.data = d] ELSE e : e \in tree}
     ELSE tree \cup {[path |-> q, kind |-> "file", ino |-> fresh, data |-> d, to |-> ""]}
(* another: put a new file in place of the name *)
Replace(tree, p, d, fresh) ==
  (tree \ At(tree, p)) \cup {[path |-> p, kind |-> "file", ino |-> fresh, data |-> d, to |-> ""]}
MayRun(tree, run) ==
  /\ IsFile(tree, Final(tree, run.in))
  /\ ~(Exists(tree, Final(tree, run.out)) /\ TheEntry(tree, Final(tree, run.out)).kind = "dir")
  /\ run.dflt => ~Exists(tree, run.out)
  /\ Final(tree, run.out) # Final(tree, run.in)
  /\ ~(IdOf(tree, run.out) # 0 /\ IdOf(tree, run.out) = IdOf(tree, run.in))
=============================================================================
