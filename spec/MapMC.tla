--------------------------------- MODULE MapMC ---------------------------------
(* Sessions of drawings on the same axes, over small maps of small numbers. *)
EXTENDS Map, TLC, Json
CONSTANTS Depth, Emit, Toggles, Small
VARIABLES axes, hist
mvars == <<axes, hist>>
Nums == {FInt(-2), FInt(-1), FZero, FInt(1), FInt(2)}
Few == {FInt(-1), FZero, FInt(2)}
Maps == IF Small THEN {<<<<a>>, <<b>>>> : a \in Few, b \in Few}
        ELSE {<<<<a, b>>, <<c, d>>>> : a \in Nums, b \in Nums, c \in Nums, d \in Nums}
Sample(cl) == {v \in Maps : Class(v) = cl}
Fields == {[op |-> "field", sym |-> s, zc |-> z, lo |-> <<>>, hi |-> <<>>] : s \in {"auto", "yes", "no"}, z \in BOOLEAN}
Equis == {[op |-> "equi", sym |-> "no", zc |-> TRUE, lo |-> l, hi |-> h] : l \in {<<>>, FInt(-3)}, h \in {<<>>, FInt(3)}}
Init == axes = Blank /\ hist = <<>>
Brief(o) == [op |-> o.op, sym |-> o.sym, zc |-> o.zc, lo |-> o.lo # <<>>, hi |-> o.hi # <<>>]
Emitted(h) == IF Emit THEN PrintT("BEH " \o ToJson([h |-> h])) ELSE TRUE
Turn(a) == IF Toggles /\ Len(a.layers) % 2 = 0 THEN [a EXCEPT !.north = "down"] ELSE a
Draw(o, v) == /\ Len(hist) < Depth
              /\ axes' = Turn(Drawn(axes, o, v))
              /\ hist' = Append(hist, Brief(o))
(* marks and lines of equal value leave direction and layers alone *)
Mark(what) == /\ Len(hist) < Depth
              /\ what = "contours" => axes.layers # <<>>
              /\ axes' = axes
              /\ hist' = Append(hist, [op |-> what, sym |-> "no", zc |-> FALSE, lo |-> FALSE, hi |-> FALSE])
One(cl) == CHOOSE v \in Sample(cl) : TRUE
ByMap == \/ \E o \in Fields \cup Equis, v \in Maps : Draw(o, v)
         \/ \E w \in {"extrema", "contours"} : Mark(w)
(* generation: one representative per class; the harness fills in its own values of that class *)
Tag(h, cl) == [h EXCEPT ![Len(h)] = @ @@ [class |-> cl]]
ByClass == /\ Len(hist) < Depth
           /\ \/ \E o \in Fields \cup Equis, cl \in Classes :
                   /\ axes' = Drawn(axes, o, One(cl))
                   /\ hist' = Tag(Append(hist, Brief(o)), cl)
              \/ \E w \in {"extrema", "contours"}, cl \in Classes :
                   /\ w = "contours" => axes.layers # <<>> /\ cl = "mixed"
                   /\ axes' = axes
                   /\ hist' = Tag(Append(hist, [op |-> w, sym |-> "no", zc |-> FALSE, lo |-> FALSE, hi |-> FALSE]), cl)
           /\ Emitted(hist')
Next == IF Emit THEN ByClass ELSE ByMap
Spec == Init /\ [][Next]_mvars
Upright == axes.layers # <<>> => axes.north = "up"
Covers == \A k \in 1..Len(axes.layers) : LET y == axes.layers[k] IN \A x \in ValuesOf(y.vals) : FLe(y.range[1], x) /\ FLe(x, y.range[2])
(* a line parts opposite signs: on every way of two steps from a negative to a positive cell *)
(* the way is crossed or passes a cell of value zero; one-signed maps have no line           *)
Parted == \A k \in 1..Len(axes.layers) :
  LET y == axes.layers[k]
  IN /\ y.drawn => \A e \in Edges(y.vals) : SignOf(At(y.vals, e[1])) * SignOf(At(y.vals, e[2])) = -1 => e \in y.line
     /\ ~CrossesZero(y.vals) => y.line = {}
     /\ \A e \in y.line : LET t == ShareAt(y.vals, e, FZero) IN FLt(FZero, t) /\ FLt(t, FOne)
Frame == [][\A k \in 1..Len(axes.layers) : axes'.layers[k] = axes.layers[k]]_mvars
=============================================================================
