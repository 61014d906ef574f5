------------------------------- MODULE WavesTrace -------------------------------
(* Judges collected waves (C33): kind, ws: tuples [r, a, s, b, t, g]; x: a phase to compare at. *)
EXTENDS Waves, CaseRun
Tol(w) == FAdd(FTiny(1, 20), FMul(FAdd(FAbs(w.r), FAbs(w.s)), FTiny(1, 12)))
Clauses(c, w) ==
  (IF FLe(FZero, w.t) THEN {} ELSE {"negative-amplitude"})
  \cup (IF FLe(FAbs(w.g), FAdd(FPi, FTiny(1, 14))) THEN {} ELSE {"phase-range"})
  \cup (IF \A x \in {FZero, Quarter, c.x} : FNear(Sum(c.kind, w.r, w.a, w.s, w.b, x), One(c.kind, w.t, w.g, x), Tol(w)) THEN {} ELSE {"sum"})
Chk(c) == UNION {Clauses(c, c.ws[k]) : k \in 1..Len(c.ws)}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
