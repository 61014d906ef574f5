---------------------------------- MODULE Map ----------------------------------
(***************************************************************************)
(* Maps drawn on axes.  Values are fixed-point reals in a rectangle of     *)
(* cells vals[i][j], i along the horizontal axis.  A request says which    *)
(* values are drawn and how; the axes keep the layers and a direction.     *)
(***************************************************************************)
EXTENDS Real, FiniteSets
Size(v) == <<Len(v), Len(v[1])>>
CellsOf(v) == (1..Len(v)) \X (1..Len(v[1]))
ValuesOf(v) == {v[c[1]][c[2]] : c \in CellsOf(v)}
Lowest(s) == CHOOSE x \in s : \A y \in s : FLe(x, y)
Highest(s) == CHOOSE x \in s : \A y \in s : FLe(y, x)
SignOf(x) == IF FLt(x, FZero) THEN -1 ELSE IF FLt(FZero, x) THEN 1 ELSE 0
Signs(v) == {SignOf(x) : x \in ValuesOf(v)}
CrossesZero(v) == {-1, 1} \subseteq Signs(v)
Class(v) == LET s == Signs(v)
            IN CASE s = {0} -> "zero"
                 [] CrossesZero(v) -> "mixed"
                 [] 0 \in s -> "touching"
                 [] Cardinality(ValuesOf(v)) = 1 -> "constant"
                 [] s = {1} -> "positive"
                 [] s = {-1} -> "negative"
Classes == {"zero", "mixed", "touching", "constant", "positive", "negative"}
(* ---- what a request means ---- *)
Balanced(o, v) == o.sym = "yes" \/ (o.sym = "auto" /\ CrossesZero(v))
(* the colour scale: the range of the values, or a given one, made symmetric on request *)
ScaleOf(o, v) ==
  LET s == ValuesOf(v)
      lo == IF o.lo = <<>> THEN Lowest(s) ELSE o.lo
      hi == IF o.hi = <<>> THEN Highest(s) ELSE o.hi
      m == FMax(FAbs(lo), FAbs(hi))
  IN IF Balanced(o, v) THEN <<FNeg(m), m>> ELSE <<lo, hi>>
HasLine(o, v) == IF o.op = "equi" THEN CrossesZero(v) ELSE Balanced(o, v) /\ o.zc
(* ---- lines of equal value on the net of cell centres ---- *)
Edges(v) == {e \in CellsOf(v) \X CellsOf(v) :
               \/ e[2] = <<e[1][1] + 1, e[1][2]>>
               \/ e[2] = <<e[1][1], e[1][2] + 1>>}
At(v, c) == v[c[1]][c[2]]
Strict(v, e, level) == \/ FLt(At(v, e[1]), level) /\ FLt(level, At(v, e[2]))
                       \/ FLt(level, At(v, e[1])) /\ FLt(At(v, e[2]), level)
Crossed(v, level) == {e \in Edges(v) : Strict(v, e, level)}
(* the share of an edge behind its crossing *)
ShareAt(v, e, level) == FDiv(FSub(level, At(v, e[1])), FSub(At(v, e[2]), At(v, e[1])))
Layer(o, v) == [vals |-> v, range |-> ScaleOf(o, v), line |-> IF HasLine(o, v) THEN Crossed(v, FZero) ELSE {}, drawn |-> HasLine(o, v)]
(* ---- the axes ---- *)
Blank == [layers |-> <<>>, north |-> "down"]     \* fresh axes count upwards: the north pole (polar angle 0) is at the bottom
Drawn(axes, o, v) == [axes EXCEPT !.layers = Append(@, Layer(o, v)), !.north = "up"]
=============================================================================
