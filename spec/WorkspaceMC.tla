------------------------------ MODULE WorkspaceMC ------------------------------
(***************************************************************************)
(* Histories of runs over a few file names: the summary of Workspace.tla   *)
(* against carrying out every run on the coefficient sets themselves.      *)
(***************************************************************************)
EXTENDS Workspace, Json
CONSTANTS Outs, Lims, Depth, Emit
VARIABLES ws, sets, hist
wvars == <<ws, sets, hist>>
V(p, q) == <<FRat(p, q), FRat(1 - p, q + 1)>>
ZdiSource == [d |-> VZeros(3), c |-> (<<1, 0>> :> <<V(3, 2), V(1, 3), V(2, 5)>>) @@ (<<2, 1>> :> <<V(-7, 3), V(1, 9), V(5, 2)>>)
                                  @@ (<<2, -2>> :> <<V(1, 4), V(1, 5), V(1, 6)>>)]
PfssSource == [d |-> VZeros(1), c |-> (<<0, 0>> :> <<V(2, 3)>>) @@ (<<1, 1>> :> <<V(9, 4)>>)]
Sources == ("z" :> ZdiSource) @@ ("p" :> PfssSource)
OutNames == {"a", "b"}
LimsFull == {-1, 1, 3}
Runs == {[mode |-> md, in |-> i, out |-> o, lim |-> L] : md \in {"forward", "reverse", "none"},
            i \in Outs \cup {"z", "p"}, o \in Outs, L \in Lims}
Init == /\ ws = [n \in {"z", "p"} |-> FromSource(Sources, n)]
        /\ sets = Sources
        /\ hist = <<>>
Carry(r) ==
  LET s == sets[r.in]
      D == IF r.lim < 0 THEN DegreeMax(s) ELSE r.lim
      nn == [s EXCEPT !.c = [p \in {p \in Keys(s) : p[2] >= 0} |-> s.c[p]]]
  IN [n \in Files(sets) \cup {r.out} |-> IF n = r.out THEN WrittenSet(Converted(nn, r.mode), D, 0) ELSE sets[n]]
Next ==
  /\ Len(hist) < Depth
  /\ \E r \in Runs :
       /\ ws' = After(ws, r)
       /\ sets' = IF Emit \/ Refused(ws, r) THEN sets ELSE Carry(r)
       /\ hist' = Append(hist, r)
  /\ (Emit /\ Len(hist') = Depth => PrintT("BEH " \o ToJson(hist')))
Spec == Init /\ [][Next]_wvars
View == <<ws, sets, Len(hist)>>

Tol == FTiny(1, 16)
SetsNear(s, t) == /\ Keys(s) = Keys(t) /\ Width(s) = Width(t)
                  /\ \A p \in Keys(s) : VNearRel(s.c[p], t.c[p], Tol)
Agree == \A n \in Files(ws) : ~ws[n].given => SetsNear(Meaning(Sources, ws[n]), sets[n])
SourcesKept == \A n \in {"z", "p"} : ws[n] = FromSource(Sources, n) /\ sets[n] = Sources[n]
(* there and back without a limit on the way: the radial coefficients of the source *)
RoundTrip == \A n \in Files(ws) : ws[n].k = 0 /\ ws[n].keep >= DegreeMax(Sources[ws[n].src]) =>
               \A p \in Keys(sets[n]) : VNearRel(<<FirstOf(sets[n], p[1], p[2])>>, <<FirstOf(Sources[ws[n].src], p[1], p[2])>>, Tol)
Lost == \A n \in Files(ws) : \A p \in Keys(sets[n]) : p[1] > ws[n].keep => sets[n].c[p] = VZeros(ws[n].w)
RowsReach == \A n \in Files(ws) : DegreeMax(sets[n]) = ws[n].deg
(* one reverse conversion at a time: three groups cannot be taken back *)
KBounded == \A n \in Files(ws) : ws[n].k >= -1 - Len(hist) /\ ws[n].k <= Len(hist)
=============================================================================
