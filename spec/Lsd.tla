---------------------------------- MODULE Lsd ----------------------------------
(***************************************************************************)
(* Spectra and least-squares-deconvolution profiles.                       *)
(* Intervals: half-open ranges of sample numbers (from 0) between gaps.    *)
(* Profiles: tables with columns velocity, I, error, V, error, N, error.   *)
(***************************************************************************)
EXTENDS Real, FiniteSets
Gap(w, k, limit) == FLt(limit, FAbs(FSub(w[k + 1], w[k])))         \* between samples k and k+1 (from 1)
Intervals(w, limit) ==
  LET step(acc, k) == IF k < Len(w) /\ ~Gap(w, k, limit) THEN acc
                      ELSE <<Append(acc[1], <<acc[2], k>>), k>>
  IN FoldLeft(step, <<<<>>, 0>>, [k \in 1..Len(w) |-> k])[1]
(* what a list of intervals has to be, said without constructing it *)
Partition(iv, n) == /\ Len(iv) > 0 /\ iv[1][1] = 0 /\ iv[Len(iv)][2] = n
                    /\ \A k \in 1..Len(iv) : iv[k][1] < iv[k][2]
                    /\ \A k \in 1..(Len(iv) - 1) : iv[k][2] = iv[k + 1][1]
BreaksAtGaps(iv, w, limit) == \A k \in 1..(Len(w) - 1) : Gap(w, k, limit) <=> \E q \in 1..Len(iv) : iv[q][2] = k

ValueColumn(p) == CASE p = "I" -> 2 [] p = "V" -> 4 [] p = "N" -> 6
ErrorColumn(p) == ValueColumn(p) + 1
(* what the panel for a parameter shows: for each row x, y, lower and upper end of its error bar *)
Panel(rows, p) == FoldLeft(LAMBDA r, d : Append(r, <<d[1], d[ValueColumn(p)], FSub(d[ValueColumn(p)], d[ErrorColumn(p)]),
                                                     FAdd(d[ValueColumn(p)], d[ErrorColumn(p)])>>), <<>>, rows)
Shows(drawn, wanted, tol) == Len(drawn) = Len(wanted) /\ \A k \in 1..Len(wanted) : \A j \in 1..4 : FNear(drawn[k][j], wanted[k][j], tol)
(* the same samples, in any order, each as often *)
Times(s, x) == FoldLeft(LAMBDA n, y : IF y = x THEN n + 1 ELSE n, 0, s)
(* the k-th smallest of the numbers s, and percentiles interpolated between the sorted numbers *)
Smallest(s, k) == s[CHOOSE i \in 1..Len(s) :
                      /\ Cardinality({j \in 1..Len(s) : FLt(s[j], s[i])}) < k
                      /\ k <= Cardinality({j \in 1..Len(s) : FLe(s[j], s[i])})]
Percentile(s, p) ==
  LET h == (Len(s) - 1) * p
      k == h \div 100
      a == Smallest(s, k + 1)
  IN IF h % 100 = 0 THEN a ELSE FAdd(a, FDivInt(FMulInt(FSub(Smallest(s, k + 2), a), h % 100), 100))
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(t) : Times(s, t[k]) = Times(t, t[k])
=============================================================================
