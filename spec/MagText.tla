-------------------------------- MODULE MagText --------------------------------
(***************************************************************************)
(* Texts of magnetogram files as coefficient sets over fixed-point reals:  *)
(* what a text holds, what a written file must hold, what the converter    *)
(* command makes of an input.                                              *)
(***************************************************************************)
EXTENDS MagFile, Lexer, Convert

RZero == FZero
ROne == FOne

ReadText(lines) ==
  LET step(rd, line) == LET fs == Fields(line)
                        IN IF IsRow(fs) THEN LET r == Row(fs) IN TakeRow(rd, r.l, r.m, r.v) ELSE TakeJunk(rd)
  IN FoldLeft(step, Start, lines)

VNearRel(u, v, digits) ==
  /\ Len(u) = Len(v)
  /\ \A i \in 1..Len(u) : \A j \in 1..2 :
       FNear(u[i][j], v[i][j], FAdd(FTiny(1, 22), FMul(FAbs(u[i][j]), digits)))
Exactly == FTiny(1, 14)             \* float parsing and printing are exact to an ulp
Seven == FTiny(51, 8)               \* half a unit of the seventh significant digit: 5e-7 (+2%)

WrittenSet(s, L, mmin) ==      \* what the file must hold
  [d |-> VZeros(Width(s)),
   c |-> [k \in Requested(0, L, mmin, L) |-> Get(s, k[1], k[2])]]
GroupsAre(rd, want) ==
  /\ ~rd.failed
  /\ Len(rd.groups) = Width(want)
  /\ \A i \in 1..Len(rd.groups) : Keys(rd.groups[i]) = Keys(want)
BodyClauses(lines, want, tol) ==
  LET rd == ReadText(lines)
      got == Outcome(rd)
  IN IF ~GroupsAre(rd, want) THEN {"written-pairs"}
     ELSE IF \E k \in Keys(want) : ~VNearRel(want.c[k], got.c[k], tol) THEN {"written-values"} ELSE {}
Radial(s) == HSplit(s, EachCut(s))[1]
Converted(s, mode) ==
  CASE mode = "forward" -> ZdiToPfss(Radial(s))
    [] mode = "reverse" -> PfssToZdi(s)
    [] mode = "none" -> s
=============================================================================
