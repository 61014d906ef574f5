------------------------------- MODULE Workspace -------------------------------
(***************************************************************************)
(* A directory of magnetogram files under histories of the converter       *)
(* command.  A file is summarised by where it comes from: the source it    *)
(* descends from, the net number k of ZDI-to-PFSS conversions on the way,  *)
(* the degree deg its rows reach, the degree keep up to which values have  *)
(* survived every limit on the way, and its number w of groups.            *)
(* A source is a coefficient set with its own degree.                      *)
(* A run: mode, in, out, lim (the requested degree, -1: none).             *)
(***************************************************************************)
EXTENDS MagText

FromSource(sources, n) ==
  [src |-> n, k |-> 0, deg |-> DegreeMax(sources[n]), keep |-> DegreeMax(sources[n]), w |-> Width(sources[n]), given |-> TRUE]

Files(ws) == DOMAIN ws
Refused(ws, r) ==
  \/ r.in \notin Files(ws)
  \/ r.in = r.out
  \/ r.mode # "forward" /\ ws[r.in].w # 1
Derived(x, r) ==
  LET D == IF r.lim < 0 THEN x.deg ELSE r.lim
  IN [x EXCEPT !.k = CASE r.mode = "forward" -> x.k + 1 [] r.mode = "reverse" -> x.k - 1 [] OTHER -> x.k,
               !.deg = D, !.keep = IF D < x.keep THEN D ELSE x.keep,
               !.w = IF r.mode = "reverse" THEN 3 ELSE 1, !.given = FALSE]
After(ws, r) ==
  IF Refused(ws, r) THEN ws
  ELSE [n \in Files(ws) \cup {r.out} |-> IF n = r.out THEN Derived(ws[r.in], r) ELSE ws[n]]

(* what a derived file holds *)
FactorPow(l, m, k) == IF k >= 0 THEN FPow(Factor(l, m), k) ELSE FDiv(FOne, FPow(Factor(l, m), -k))
FirstOf(s, l, m) == Get(s, l, m)[1]
Meaning(sources, x) ==
  LET s == sources[x.src]
      a(l, m) == IF l > x.keep THEN CZero
                 ELSE LET f == FactorPow(l, m, x.k) z == FirstOf(s, l, m) IN <<FMul(f, z[1]), FMul(f, z[2])>>
      b(l, m) == LET z == a(l, m) q == SurfaceRatio(l, DefaultRss) IN <<FMul(q, z[1]), FMul(q, z[2])>>
  IN [d |-> VZeros(x.w),
      c |-> [p \in Requested(0, x.deg, 0, x.deg) |->
               IF x.w = 1 THEN <<a(p[1], p[2])>> ELSE <<a(p[1], p[2]), b(p[1], p[2]), CZero>>]]
=============================================================================
