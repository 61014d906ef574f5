----------------------------- MODULE ContainerMC -----------------------------
(***************************************************************************)
(* The coefficient-set machine over small integers, explored exhaustively  *)
(* by TLC.  `hist` records the operations so that behaviours can be        *)
(* replayed in the real code (ContainerGen.cfg prints them as JSON).       *)
(***************************************************************************)
EXTENDS Container, Json
CONSTANTS MaxHandles,      \* pool size
          Depth,           \* operations after the initial pool
          Ls, Vals, Widths, OpNames,
          Emit             \* TRUE: print every behaviour of full depth

VARIABLES pool, hist, seen
vars == <<pool, hist, seen>>

IAdd(a, b) == a + b
IMul(a, b) == a * b
INeg(a) == -a

Vec(x, w) == [i \in 1..w |-> <<x, i - 1>>]           \* tells components apart
AllPairs == Ls \X (-1..1)

Store(h, l, m, v, app) ==
  LET s == pool[h]
      ok == IF app THEN CanAppend(s, l, m, v) ELSE CanStore(s, l, m, v)
  IN /\ pool' = IF ok THEN [pool EXCEPT ![h] = Put(s, l, m, v)] ELSE pool
     /\ hist' = Append(hist, [op |-> IF app THEN "append" ELSE "set",
                              h |-> h, l |-> l, m |-> m, v |-> v, ok |-> ok])

NewHandles(ss, rec) ==
  /\ Len(pool) + Len(ss) <= MaxHandles
  /\ pool' = pool \o ss
  /\ hist' = Append(hist, rec)

Init == /\ \E w \in Widths : pool = <<Empty(VZeros(w))>>
        /\ hist = <<>> /\ seen = <<>>

Step ==
  \/ /\ "store" \in OpNames
     /\ \E h \in 1..Len(pool), p \in AllPairs, x \in Vals, app \in BOOLEAN :
           Store(h, p[1], p[2], Vec(x, Width(pool[h])), app)
  \/ /\ "badwidth" \in OpNames
     /\ \E h \in 1..Len(pool), l \in Ls, app \in BOOLEAN :
           Store(h, l, 0, Vec(1, Width(pool[h]) + 1), app)
  \/ /\ "copy" \in OpNames
     /\ \E h \in 1..Len(pool) : NewHandles(<<Copy(pool[h])>>, [op |-> "copy", h |-> h])
  \/ /\ "add" \in OpNames
     /\ \E g, h \in 1..Len(pool) : Width(pool[g]) = Width(pool[h])
          /\ NewHandles(<<Add(pool[g], pool[h])>>, [op |-> "add", h |-> g, g |-> h])
  \/ /\ "sub" \in OpNames
     /\ \E g, h \in 1..Len(pool) : Width(pool[g]) = Width(pool[h])
          /\ NewHandles(<<Sub(pool[g], pool[h])>>, [op |-> "sub", h |-> g, g |-> h])
  \/ /\ "mul" \in OpNames
     /\ \E g, h \in 1..Len(pool) : Width(pool[g]) = Width(pool[h])
          /\ NewHandles(<<Times(pool[g], pool[h])>>, [op |-> "mul", h |-> g, g |-> h])
  \/ /\ "trunc" \in OpNames
     /\ \E h \in 1..Len(pool), L \in 0..1 :
          NewHandles(<<Truncated(pool[h], L)>>, [op |-> "trunc", h |-> h, L |-> L])
  \/ /\ "zeros" \in OpNames
     /\ \E h \in 1..Len(pool) : NewHandles(<<ZerosLike(pool[h])>>, [op |-> "zeros_like", h |-> h])
  \/ /\ "hstack" \in OpNames
     /\ \E g, h \in 1..Len(pool) : Width(pool[g]) + Width(pool[h]) <= 3
          /\ NewHandles(<<HStack(<<pool[g], pool[h]>>)>>, [op |-> "hstack", hs |-> <<g, h>>])
  \/ /\ "hsplit" \in OpNames
     /\ \E h \in 1..Len(pool) : Width(pool[h]) > 1
          /\ NewHandles(HSplit(pool[h], EachCut(pool[h])), [op |-> "hsplit", h |-> h])

Next == /\ Len(hist) < Depth /\ Step /\ seen' = pool
        /\ (Emit /\ Len(hist') = Depth => PrintT("BEH " \o ToJson([w |-> Width(pool[1]), ops |-> hist'])))
Spec == Init /\ [][Next]_vars

(* ---- properties of the machine ----------------------------------------- *)
TypeOK == \A h \in 1..Len(pool) : \A k \in Keys(pool[h]) :
            /\ AbsI(k[2]) <= k[1]
            /\ Len(pool[h].c[k]) = Width(pool[h])
ExtentsOK == \A h \in 1..Len(pool) : LET s == pool[h] IN
  /\ \A k \in Keys(s) : k[1] <= DegreeMax(s) /\ OrderMin(s) <= k[2]
  /\ (Size(s) = 0 => DegreeMax(s) = 0 /\ OrderMin(s) = 0)
(* C01: lookup = last accepted store of that pair on that handle, for root handles *)
RECURSIVE LastStore(_, _, _, _)
LastStore(hs, h, k, dflt) ==
  IF hs = <<>> THEN dflt
  ELSE LET e == hs[Len(hs)]
       IN IF e.op \in {"append", "set"} /\ e.ok /\ e.h = h /\ <<e.l, e.m>> = k THEN e.v
          ELSE LastStore(SubSeq(hs, 1, Len(hs) - 1), h, k, dflt)
LookupOK == \A k \in AllPairs : Get(pool[1], k[1], k[2]) = LastStore(hist, 1, k, pool[1].d)
(* C02: a step changes at most the handle stored into, and a refused store nothing *)
Frame == \A h \in 1..Len(seen) :
   pool[h] # seen[h] =>
      LET e == hist[Len(hist)] IN e.op \in {"append", "set"} /\ e.h = h /\ e.ok
(* C03: algebraic laws of the specified operations *)
Laws == \A g, h \in 1..Len(pool) : LET s == pool[g] t == pool[h] IN
   /\ HStack(HSplit(s, EachCut(s))) = s
   /\ Width(s) = Width(t) =>
        /\ Add(s, t) = Add(t, s)
        /\ Times(s, t) = Times(t, s)
        /\ \A k \in Keys(Sub(Add(s, t), t)) : Get(Sub(Add(s, t), t), k[1], k[2]) = Get(s, k[1], k[2])
   /\ \A L \in 0..2 : Truncated(Truncated(s, L), 1) = Truncated(s, IF L < 1 THEN L ELSE 1)
   /\ HSplit(HStack(<<s, t>>), <<0, Width(s), Width(s) + Width(t)>>)[1].d = s.d
=============================================================================
