------------------------------- MODULE ImageTrace -------------------------------
(***************************************************************************)
(* Judges histories of image transforms (C20).  Every step is judged from  *)
(* its own arguments alone:                                                *)
(*   harmonic: l, m, ths, phs, out       to_image: coefs, ts, ps, out      *)
(*   from_image: img, ts, ps, limit, out (list of [l, m, v])               *)
(*   recover: coefs, nt, limit, out: from_image of the image of coefs      *)
(***************************************************************************)
EXTENDS Image, CaseRun
G(s) == [ts |-> s.ts, ps |-> s.ps]
SameImage(w, o, tol) == Len(w) = Len(o) /\ \A i \in 1..Len(w) : Len(w[i]) = Len(o[i]) /\ \A j \in 1..Len(w[i]) : XNear(w[i][j], o[i][j], tol)
Size(cs) == FoldLeft(LAMBDA x, c : FAdd(x, XAbs1(c.v)), FZero, cs)
Lin(cs) == FAdd(FTiny(1, 22), FMul(Size(cs), FMulInt(FTiny(1, 12), ITop(cs) + 2)))
IdxSet(s, limit) == {<<s[i].l, s[i].m>> : i \in 1..Len(s)} = {<<p[1], p[2]>> : p \in UNION {{<<l, m>> : m \in (-l)..l} : l \in 0..(limit - 1)}}
                    /\ Len(s) = limit * limit
Val(s, l, m) == LET q == SelectSeq(s, LAMBDA c : c.l = l /\ c.m = m) IN IF q = <<>> THEN CZ ELSE q[1].v
StepClauses(s) ==
  CASE s.op = "harmonic" ->
         IF SameImage(HarmonicImage(s.l, s.m, s.ths, s.phs), s.out, FMulInt(FTiny(1, 12), s.l + 1)) THEN {} ELSE {"harmonic"}
    [] s.op = "to_image" ->
         IF SameImage(ImageOf(s.coefs, CentreThetas(G(s)), CentrePhis(G(s))), s.out, Lin(s.coefs)) THEN {} ELSE {"image"}
    [] s.op = "from_image" ->
         IF ~IdxSet(s.out, s.limit) THEN {"degrees-and-orders"}
         ELSE LET w == Integrals(s.img, G(s), s.limit)
                  h2 == FSq(MaxOf(Widths(s.ts)))
              IN IF \A k \in 1..Len(w) : XNear(w[k].v, Val(s.out, w[k].l, w[k].m),
                                               FAdd(FTiny(1, 20), FMul(w[k].size, FAdd(FTiny(1, 11), FDivInt(h2, 12)))))
                 THEN {} ELSE {"integrals"}
    [] s.op = "recover" ->
         IF ~IdxSet(s.out, s.limit) THEN {"degrees-and-orders"}
         ELSE LET n == FMulInt(FOne, (IF ITop(s.coefs) > s.limit THEN ITop(s.coefs) ELSE s.limit) + 1)
                  tol == FMul(Size(s.coefs), FAdd(FTiny(1, 11), FDivInt(FMul(FSq(FDivInt(FPi, s.nt)), FSq(n)), 10)))
              IN IF \A i \in 1..Len(s.out) : XNear(s.out[i].v, Val(s.coefs, s.out[i].l, s.out[i].m), tol) THEN {} ELSE {"not-recovered"}
Chk(c) == UNION {StepClauses(c.steps[i]) : i \in 1..Len(c.steps)}
Next == RunNext(Chk)
Spec == RunInit /\ [][Next]_runvars
=============================================================================
