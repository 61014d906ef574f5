------------------------------- MODULE EnergyTrace -------------------------------
(***************************************************************************)
(* Judges energy reports (C13).  case: coefs; ea, eb, eg (energies per     *)
(* coefficient); dict (named values, the finite ones); shown (named values *)
(* printed, with their half unit in the last place); table (lines of the   *)
(* table of shares); er, ep, et (matrices).                                *)
(***************************************************************************)
EXTENDS Energy, Lexer, CaseRun
Scale(cs) == FoldLeft(LAMBDA x, c : FAdd(x, FAdd(XNorm2(c.a), FAdd(XNorm2(c.b), XNorm2(c.g)))), FZero, cs)
(* s: the squared size of what was added up; Re(c)^2 is computed from terms of size |c|^2 *)
NearRel(a, b, s) == FNear(a, b, FAdd(FAdd(FTiny(1, 20), FMul(s, FTiny(1, 13))), FMul(FAbs(a), FTiny(1, 10))))
PerCoef(c, obs, e(_)) == Len(obs) = Len(c.coefs) /\ \A i \in 1..Len(obs) : NearRel(e(c.coefs[i]), obs[i], Scale(c.coefs))
Safe(t) == FLt(FTiny(1, 9), t[3])          \* a denominator that can be divided by
Value(t) == FDiv(t[2], t[3])
MatrixOK(c, obs, e(_)) ==
  LET L == ETop(c.coefs)
      S == Scale(c.coefs)
  IN /\ Len(obs) = L + 1
     /\ \A i \in 1..(L + 1) :
          /\ Len(obs[i]) = 2 * L + 1
          /\ \A j \in 1..(2 * L + 1) : NearRel(Cell(c.coefs, i - 1, j - 1 - L, e), obs[i][j], S)
NamedClauses(c) ==
  LET want == Named(c.coefs)
      S == Scale(c.coefs)
  IN {want[i][1] : i \in {j \in 1..Len(want) : want[j][1] \notin DOMAIN c.dict}}
     \cup {want[i][1] : i \in {j \in 1..Len(want) : want[j][1] \in DOMAIN c.dict /\ Safe(want[j])
                                                  /\ ~NearRel(Value(want[j]), c.dict[want[j][1]], FDiv(S, want[j][3]))}}
(* the printed report states these *)
Printed == {"magnetogram." \o x : x \in {"total.energy.B2", "radial.energy.fraction", "poloidal.energy.fraction", "toroidal.energy.fraction",
   "total.energy.dipole.fraction", "total.energy.quadrupole.fraction", "total.energy.octopole.fraction",
   "total.energy.toroidal.l1.fraction", "total.energy.toroidal.l2.fraction", "total.energy.toroidal.l3.fraction",
   "total.energy.axisymmetric.fraction", "total.energy.poloidal.axisymmetric.fraction",
   "total.energy.toroidal.axisymmetric.fraction", "total.energy.dipole.axisymmetric.fraction"}}
ShownClauses(c) ==
  LET want == Named(c.coefs)
  IN {"printed " \o want[i][1] : i \in {j \in 1..Len(want) : want[j][1] \in DOMAIN c.shown /\ Safe(want[j])
        /\ ~FNear(Value(want[j]), c.shown[want[j][1]][1], c.shown[want[j][1]][2])}}
     \cup {"not printed " \o want[i][1] : i \in {j \in 1..Len(want) : want[j][1] \in Printed \ DOMAIN c.shown /\ Safe(want[j])}}
(* the table of shares: one line per coefficient, degree, order and three shares of the total to six decimals *)
IsShareRow(f) == Len(f) = 5 /\ IsIntField(f[1]) /\ IsIntField(f[2]) /\ \A k \in 3..5 : IsNumField(f[k])
ShareIs(f, x, tot, S) == LET v == FDiv(x, tot) w == NumOf(f)
                      IN FNear(v, w, FAdd(FAdd(FMul(FAbs(v), FTiny(51, 8)), FTiny(1, 18)), FMul(FDiv(S, tot), FTiny(1, 13))))
TableClauses(c) ==
  LET rows == FoldLeft(LAMBDA r, ln : LET f == Fields(ln) IN IF IsShareRow(f) THEN Append(r, f) ELSE r, <<>>, c.table)
      tot == Tot(c.coefs)
      S == Scale(c.coefs)
      of(f) == {k \in 1..Len(c.coefs) : c.coefs[k].l = IntOf(f[1]) /\ c.coefs[k].m = IntOf(f[2])}
  IN IF ~c.shares \/ ~FLt(FTiny(1, 9), tot) THEN {}
     ELSE (IF Len(rows) = Len(c.coefs) /\ \A k \in 1..Len(c.coefs) : \E i \in 1..Len(rows) : k \in of(rows[i]) THEN {} ELSE {"table-rows"})
          \cup (IF \A i \in 1..Len(rows) : \A k \in of(rows[i]) :
                     LET f == rows[i] x == c.coefs[k]
                     IN ShareIs(f[3], EA(x), tot, S) /\ ShareIs(f[4], EB(x), tot, S) /\ ShareIs(f[5], EG(x), tot, S) THEN {} ELSE {"shares"})
Chk(c) ==
  IF c.op = "matrix"
  THEN (IF MatrixOK(c, c.er, EA) THEN {} ELSE {"radial-matrix"})
       \cup (IF MatrixOK(c, c.ep, EP) THEN {} ELSE {"poloidal-matrix"})
       \cup (IF MatrixOK(c, c.et, EG) THEN {} ELSE {"toroidal-matrix"})
  ELSE (IF PerCoef(c, c.ea, EA) THEN {} ELSE {"alpha-energies"})
       \cup (IF PerCoef(c, c.eb, EB) THEN {} ELSE {"beta-energies"})
       \cup (IF PerCoef(c, c.eg, EG) THEN {} ELSE {"gamma-energies"})
       \cup (IF c.op = "dict" THEN NamedClauses(c) ELSE ShownClauses(c) \cup TableClauses(c))
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
