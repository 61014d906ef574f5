-------------------------------- MODULE NoiseMC --------------------------------
EXTENDS Noise
VARIABLES st, lo0, half
nvars == <<st, lo0, half>>
Draws == {<<FInt(3), FInt(-2)>>, <<FZero, FOne>>}
Init == \E lo \in 0..3, hi \in 0..4 : lo0 = lo /\ half \in {-512, -100, 0, 256, 700, 1024} /\ (lo = 0 => half = 0) /\ st = Begin(lo, hi)
Next == ~Finished(st) /\ st' = Draw(st, <<FInt(3 + st.drawn), FInt(-2)>>, half) /\ UNCHANGED <<lo0, half>>
Spec == Init /\ [][Next]_nvars /\ WF_nvars(Next)
Within == \A k \in 1..Len(st.set) : 0 <= st.set[k].m /\ st.set[k].m <= st.set[k].l /\ lo0 <= st.set[k].l /\ st.set[k].l <= st.hi
Once == \A j, k \in 1..Len(st.set) : j < k => st.set[j].l < st.set[k].l \/ (st.set[j].l = st.set[k].l /\ st.set[j].m < st.set[k].m)
OneDrawEach == Len(st.set) = st.drawn
Complete == Finished(st) => /\ {<<st.set[k].l, st.set[k].m>> : k \in 1..Len(st.set)} = Pairs(lo0, st.hi)
                            /\ st.drawn = NumDraws(lo0, st.hi)
(* the draws come back from the stored values *)
Undone == \A k \in 1..Len(st.set) :
  FNear(FMul(st.set[k].v[1], Damping(st.set[k].l, half)), FInt(2 + k), FTiny(1, 20))
(* the root is one: its 512th power is the degree *)
RootRight == \A l \in 1..4 : FNear(FPow(Root512(l), 512), FInt(l), FTiny(1, 20))
Ends == <>Finished(st)
=============================================================================
