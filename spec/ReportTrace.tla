------------------------------ MODULE ReportTrace ------------------------------
(***************************************************************************)
(* Judges printed forms (C31).  case.op:                                   *)
(*   "set"   txt, es: stored entries [l, m, v] in ascending order, d: the  *)
(*           default value                                                 *)
(*   "zdi"   txt, es: entries in the magnetogram's own order               *)
(*   "wind"  txt, names (name texts), vals ([num, den])                    *)
(***************************************************************************)
EXTENDS Report, CaseRun
(* Eight decimals, of the value or of its mantissa; of the mantissa for values below a ten thousandth. *)
(* The fixed point of the specification adds 1/10^24.                                                  *)
Printed8(v, w) ==
  LET rel == FAdd(FTiny(1, 24), FMul(FAbs(v), FTiny(51, 10)))
  IN FNear(v, w, IF FLt(FAbs(v), FTiny(1, 4)) THEN rel ELSE FAdd(rel, FTiny(51, 10)))
Whole(v, w) == FNear(v, w, FAdd(FTiny(1, 24), FMul(FAbs(v), FTiny(1, 15))))
ValuesAre(txt, vs, near(_, _)) ==
  LET tk == NumTokens(txt)
  IN /\ AllNumbers(tk)
     /\ LET z == Complexes(tk)
        IN Len(z) = Len(vs) /\ \A k \in 1..Len(vs) : near(vs[k][1], z[k][1]) /\ near(vs[k][2], z[k][2])
EntriesAre(r, es, near(_, _)) ==
  IF ~r.ok THEN {"layout"}
  ELSE IF Len(r.es) # Len(es) \/ \E k \in 1..Len(es) : IntOf(r.es[k].l) # es[k].l \/ IntOf(r.es[k].m) # es[k].m THEN {"pairs-printed"}
  ELSE IF \A k \in 1..Len(es) : ValuesAre(r.es[k].v, es[k].v, near) THEN {} ELSE {"values-printed"}
Chk(c) ==
  CASE c.op = "set" -> IF c.es = <<>> THEN (IF ValuesAre(Bracketed(c.txt), c.d, Printed8) THEN {} ELSE {"empty-set"})
                       ELSE EntriesAre(Entries(AfterTitle(c.txt), "[", "]"), c.es, Printed8)
    [] c.op = "zdi" -> EntriesAre(Entries(AfterTitle(c.txt), ":", "\n"), c.es, Whole)
    [] c.op = "wind" -> UNION {IF DenotesTo(ValueAfter(c.txt, c.names[k]), 2, c.vals[k].num, c.vals[k].den) THEN {}
                               ELSE {"parameter-printed"} : k \in 1..Len(c.names)}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
