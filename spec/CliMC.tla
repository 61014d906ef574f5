-------------------------------- MODULE CliMC --------------------------------
EXTENDS Cli, TLC, Json
CONSTANTS Ins, Outs, Modes, Depth, Emit
VARIABLES tree, hist, last
vars == <<tree, hist, last>>
F(p, i, d) == [path |-> p, kind |-> "file", ino |-> i, data |-> d, to |-> ""]
Ln(p, t) == [path |-> p, kind |-> "link", ino |-> 0, data |-> 0, to |-> t]
(* the harness builds the same tree *)
Tree0 == {F("m.dat", 1, 1), F("hard.dat", 1, 1), F("w.dat", 2, 2), F("bad.dat", 3, 3), F("junk.txt", 4, 4),
          Ln("sym.dat", "m.dat"), Ln("dang.dat", "later.dat"),
          [path |-> "sub", kind |-> "dir", ino |-> 0, data |-> 0, to |-> ""]}
DefaultOut(in, mode) ==
  LET s == IF mode = "reverse" THEN "_zdi" ELSE "_wso"
  IN CASE in = "m.dat" -> "m" \o s \o ".dat" [] in = "hard.dat" -> "hard" \o s \o ".dat"
       [] in = "w.dat" -> "w" \o s \o ".dat" [] in = "sym.dat" -> "sym" \o s \o ".dat"
       [] in = "bad.dat" -> "bad" \o s \o ".dat" [] in = "junk.txt" -> "junk" \o s \o ".txt"
       [] OTHER -> in \o s
Runs == {[mode |-> m, in |-> i, out |-> IF o = "" THEN DefaultOut(i, m) ELSE o, dflt |-> o = ""] :
            m \in Modes, i \in Ins, o \in Outs}
InsFull == {"m.dat", "hard.dat", "w.dat", "bad.dat", "junk.txt", "sym.dat", "missing.dat", "sub"}
OutsFull == {"", "m.dat", "hard.dat", "w.dat", "sym.dat", "dang.dat", "sub", "new.dat", "m_wso.dat", "nodir/x.dat", "sub/x.dat"}
InsSmall == {"m.dat", "hard.dat", "w.dat", "sym.dat"}
OutsSmall == {"", "m.dat", "w.dat", "dang.dat", "new.dat", "m_wso.dat"}

Init == tree = Tree0 /\ hist = <<>> /\ last = [pre |-> Tree0, run |-> [mode |-> "", in |-> "", out |-> "", dflt |-> FALSE], ok |-> FALSE]
Fresh == 10 + Len(hist)
Step(run, ok, t) ==
  /\ tree' = t
  /\ last' = [pre |-> tree, run |-> run, ok |-> ok]
  /\ hist' = Append(hist, run)
Next ==
  /\ Len(hist) < Depth
  /\ \E run \in Runs :
       \/ Step(run, FALSE, tree)
       \/ ~Emit /\ MayRun(tree, run) /\ Step(run, TRUE, Write(tree, run.out, Fresh, Fresh))
       \/ ~Emit /\ MayRun(tree, run) /\ Step(run, TRUE, Replace(tree, run.out, Fresh, Fresh))
  /\ (Emit /\ Len(hist') = Depth => PrintT("BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
View == <<tree, last, Len(hist)>>

(* the machine keeps the clauses, and they give what users rely on *)
StepsLegal == hist # <<>> => RunClauses(last.pre, last.run, last.ok, tree) = {}
Unharmed(p) == \A q \in Names(last.pre, p) : At(last.pre, q) \subseteq tree
NamedOnly ==            \* a file that is neither the output nor one of its names is as before
  hist # <<>> => \A e \in last.pre :
     e.kind = "file" /\ e.path \notin ({last.run.out, Final(last.pre, last.run.out)} \cup Names(last.pre, last.run.out))
       => e \in tree
DefaultSafe == hist # <<>> /\ last.run.dflt => last.pre \subseteq tree
InputSafe == hist # <<>> /\ IsFile(last.pre, Final(last.pre, last.run.in)) =>
               \A e \in last.pre : e.kind = "file" /\ e.ino = IdOf(last.pre, last.run.in) =>
                  (e \in tree \/ e.path = last.run.out)
OneInodeOneContent == \A e, f \in tree : e.kind = "file" /\ f.kind = "file" /\ e.ino = f.ino => e.data = f.data
=============================================================================
